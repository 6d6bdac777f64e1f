/* C29 string views: every operation against its definition, over exact-size buffers */
#include "hx.h"
#include "strview.c"            /* declarations only: the implementation is compiled on its own */
uint64_t sv_chop_u64(String_View *sv);

static int p_kind; static unsigned char p_c;
static bool pred(char x) {
  unsigned char u = (unsigned char)x;
  switch (p_kind) { case 0: return u != p_c; case 1: return u >= '0' && u <= '9'; case 2: return true; case 3: return false; default: return u < 'm'; }
}
static bool spc(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(unsigned char c) { return c >= '0' && c <= '9'; }
static unsigned char lowc(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

struct buf { char *p; size_t n; };
static void gen(struct buf *b, size_t n, int kind) {
  b->n = n; b->p = malloc(n);      /* exact size: both ends are redzones */
  for (size_t i = 0; i < n; i++) switch (kind) {
    case 0: b->p[i] = "ab"[rnd(2)]; break;
    case 1: b->p[i] = (char)rnd(256); break;
    case 2: b->p[i] = " \t\n\v\f\rx\x85"[rnd(8)]; break;
    case 3: b->p[i] = "0123456789x"[rnd(11)]; break;
    case 4: b->p[i] = "aAbBzZ[{@`"[rnd(10)]; break;
    case 5: b->p[i] = ",,a\0"[rnd(4)]; break;
    default: b->p[i] = 'a'; break;
  }
}
static size_t glen(void) { switch (rnd(6)) { case 0: return rnd(3); case 1: return rnd(600) == 0 ? 65530 + rnd(8000) : rnd(chance(3) ? 5000 : 200); default: return rnd(14); } }

/* a view of a private exact-size copy of n bytes: an access outside the view is an access outside the block */
static String_View pin(const char *p, size_t n, char **own) {
  *own = malloc(n); if (n) memcpy(*own, p, n);
  String_View v = { n, *own };
  if (n == 0 && chance(30)) { v.data = 0; COUNT("null views"); }
  return v;
}
static void same(const char *what, String_View v, const char *base, size_t off, size_t n) {
  CK(v.count == n, "%s: %zu bytes, expected %zu", what, v.count, n);
  if (n) CK(v.data == base + off, "%s: starts at offset %td, expected %zu", what, v.data - base, off);
  OB(v.count); if (n) OBS(v.data, n);
}
static size_t find1(const char *p, size_t n, unsigned char c) { for (size_t i = 0; i < n; i++) if ((unsigned char)p[i] == c) return i; return n; }
static size_t findn(const char *p, size_t n, const char *q, size_t m) {     /* n when absent */
  for (size_t i = 0; i + m <= n; i++) { size_t k = 0; while (k < m && p[i + k] == q[k]) k++; if (k == m) return i; }
  return n;
}

void d_c29(void) {
  int kind = (int)rnd(7);
  struct buf t; gen(&t, glen(), kind);
  OP("text(%zu,kind%d)", t.n, kind);
  size_t a = 0, z = t.n;       /* the view, as offsets in the model text */
  int nops = (int)rndr(1, 14);
  for (int o = 0; o < nops; o++) {
    if (z == a && chance(75)) { free(t.p); kind = (int)rnd(7); gen(&t, glen(), kind); a = 0; z = t.n; OP("text(%zu,kind%d)", t.n, kind); }
    char *own; size_t n = z - a; const char *m = t.p + a;
    String_View v = pin(m, n, &own), r;
    const char *B = v.data;
    size_t na = a, nz = z;
    int op = kind == 2 && chance(50) ? (int)rnd(3) : kind == 3 && chance(50) ? 13 : (int)rnd(17);
    switch (op) {
      case 0: case 1: case 2: {
        size_t l = 0, e = n;
        if (op != 1) while (l < n && spc(m[l])) l++;
        if (op != 0) while (e > l && spc(m[e - 1])) e--;
        OP("trim%d(%zu)", op, n);
        r = op == 0 ? sv_trim_left(v) : op == 1 ? sv_trim_right(v) : sv_trim(v);
        same("trim", r, B, l, e - l); COUNT("trims"); if (l || e < n) COUNT("bytes trimmed");
        if (chance(50)) { na = a + l; nz = a + e; }
        break; }
      case 3: case 4: {
        size_t k = chance(20) ? SIZE_MAX - rnd(3) : rnd(n + 4), d = k < n ? k : n;
        OP("chop%s(%zu of %zu)", op == 3 ? "left" : "right", k, n);
        String_View w = v;
        r = op == 3 ? sv_chop_left(&w, k) : sv_chop_right(&w, k);
        if (op == 3) { same("chop_left", r, B, 0, d); same("chop_left rest", w, B, d, n - d); na = a + d; }
        else { same("chop_right", r, B, n - d, d); same("chop_right rest", w, B, 0, n - d); nz = z - d; }
        COUNT("chops by count"); if (k > n) COUNT("counts over the length"); break; }
      case 5: case 6: {
        unsigned char c = n && chance(70) ? (unsigned char)m[rnd(n)] : (unsigned char)rnd(256);
        size_t i = find1(m, n, c);
        String_View w = v;
        if (op == 5) {
          OP("chop_by_delim(%u at %zu of %zu)", c, i, n);
          r = sv_chop_by_delim(&w, (char)c);
          same("chop_by_delim", r, B, 0, i);
          size_t d = i < n ? i + 1 : n; same("chop_by_delim rest", w, B, d, n - d); na = a + d; COUNT("chops by character");
        } else {
          OP("try_chop(%u at %zu of %zu)", c, i, n);
          String_View ch = { 77, (char *)0x77 }; int want = chance(80);
          bool ok = sv_try_chop_by_delim(&w, (char)c, want ? &ch : NULL);
          CK(ok == (i < n), "try_chop says %d", ok); OB(ok);
          if (ok) { if (want) same("try_chop chunk", ch, B, 0, i); same("try_chop rest", w, B, i + 1, n - i - 1); na = a + i + 1; }
          else { same("try_chop untouched", w, B, 0, n); COUNT("refused chops"); }
        }
        break; }
      case 7: case 8: {
        struct buf d; size_t dl = rnd(5) + (chance(10) ? rnd(20) : 0);
        if (n && chance(70)) { if (dl > n) dl = n; d.n = dl; d.p = malloc(dl); size_t at = rnd(n - dl + 1); memcpy(d.p, m + at, dl); if (dl && chance(15)) d.p[dl - 1] ^= 1; }
        else gen(&d, dl, kind);
        if (d.n == 0) { free(d.p); break; }
        size_t i = findn(m, n, d.p, d.n);
        OP("chop_by_sv(%zu at %zu of %zu)", d.n, i, n);
        String_View w = v, dv = { d.n, d.p };
        r = sv_chop_by_sv(&w, dv);
        same("chop_by_sv", r, B, 0, i); size_t k = i < n || d.n == 0 ? i + d.n : n;
        if (i == n) k = n;
        same("chop_by_sv rest", w, B, k, n - k); na = a + k; COUNT("chops by text");
        if (d.n > n) COUNT("delimiters longer than the view"); if (i + d.n == n) COUNT("delimiters at the end"); if (i == n) COUNT("absent delimiters");
        free(d.p); break; }
      case 9: {
        unsigned char c = n && chance(70) ? (unsigned char)m[rnd(n)] : (unsigned char)rnd(256);
        size_t i = find1(m, n, c), ix = 0xABCD;
        OP("index_of(%u at %zu of %zu)", c, i, n);
        bool ok = sv_index_of(v, (char)c, &ix), ok2 = sv_index_of(v, (char)c, NULL);
        CK(ok == (i < n) && ok2 == ok, "index_of says %d %d", ok, ok2);
        if (ok) CK(ix == i, "index_of: %zu, expected %zu", ix, i);
        OB(ok); COUNT("searches"); break; }
      case 10: case 11: case 12: {
        /* compare with a related text */
        struct buf d; size_t dl = chance(50) ? n : rnd(n + 3);
        d.n = dl; d.p = malloc(dl);
        for (size_t i = 0; i < dl; i++) d.p[i] = i < n ? m[op == 12 && dl <= n ? n - dl + i : i] : 'q';
        if (op == 10) for (size_t i = 0; i < dl; i++) if (chance(30)) { unsigned char c = d.p[i]; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || chance(20)) d.p[i] = c ^ 32; }
        if (dl && chance(30)) d.p[chance(50) ? dl - 1 : rnd(dl)] ^= 1 << rnd(8);
        char *own2; String_View dv = pin(d.p, dl, &own2);
        bool eq = dl == n && (!n || !memcmp(d.p, m, n)), ieq = dl == n;
        for (size_t i = 0; ieq && i < n; i++) ieq = lowc(d.p[i]) == lowc(m[i]);
        bool pre = dl <= n && (!dl || !memcmp(m, d.p, dl)), suf = dl <= n && (!dl || !memcmp(m + n - dl, d.p, dl));
        OP("compare(%zu,%zu)=%d%d%d%d", n, dl, eq, ieq, pre, suf);
        bool g[4] = { sv_eq(v, dv), sv_eq_ignorecase(v, dv), sv_starts_with(v, dv), sv_ends_with(v, dv) }, x[4] = { eq, ieq, pre, suf };
        for (int i = 0; i < 4; i++) { CK(g[i] == x[i], "%s(%zu bytes, %zu bytes) says %d", (char *[]){ "eq", "eq_ignorecase", "starts_with", "ends_with" }[i], n, dl, g[i]); OB(g[i]); }
        COUNT("comparisons"); if (ieq && !eq) COUNT("equal but for case"); if (pre && !eq) COUNT("prefixes"); if (suf && !eq) COUNT("suffixes");
        free(own2); free(d.p); break; }
      case 13: case 14: {
        size_t i = 0; uint64_t x = 0; int over = 0;
        while (i < n && dig(m[i])) { if (__builtin_mul_overflow(x, 10ull, &x) || __builtin_add_overflow(x, (uint64_t)(m[i] - '0'), &x)) over = 1; i++; }
        OP("u64(%zu digits of %zu)", i, n);
        uint64_t g = sv_to_u64(v); if (!over) CK(g == x, "to_u64: %llu, expected %llu", (unsigned long long)g, (unsigned long long)x);
        String_View w = v; g = sv_chop_u64(&w); if (!over) CK(g == x, "chop_u64: %llu, expected %llu", (unsigned long long)g, (unsigned long long)x);
        same("chop_u64 rest", w, B, i, n - i); na = a + i; COUNT("numbers read"); break; }
      default: {
        p_kind = (int)rnd(5); p_c = n ? (unsigned char)m[rnd(n)] : 'a';
        size_t i = 0; while (i < n && pred(m[i])) i++;
        OP("while(%d: %zu of %zu)", p_kind, i, n);
        r = sv_take_left_while(v, pred); same("take_left_while", r, B, 0, i);
        String_View w = v; r = sv_chop_left_while(&w, pred);
        same("chop_left_while", r, B, 0, i); same("chop_left_while rest", w, B, i, n - i); na = a + i; COUNT("predicate slices"); break; }
    }
    CK(n == 0 || !memcmp(own, m, n), "an operation wrote into the viewed text");
    free(own);
    hx->nontrivial = 1;
    a = na; z = nz;
  }
  free(t.p);
  /* whole C strings */
  char z0[40]; size_t zn = rnd(39); for (size_t i = 0; i < zn; i++) z0[i] = (char)rndr(1, 255); z0[zn] = 0;
  char *zd = hx_dup(z0, zn + 1); String_View cv = sv_from_cstr(zd); same("from_cstr", cv, zd, 0, zn); 
  String_View pv = sv_from_parts(zd, zn / 2); same("from_parts", pv, zd, 0, zn / 2); free(zd);
}
