/* C16 (parser accepts exactly JSON, right values) and C17 (hostile bytes are contained). */
#include "ref.h"
#include "drvj.h"
#include <time.h>

/* ---- seed documents */
static struct { char *p; size_t n; } *seeds;
static size_t nseeds;
void seeds_load(void) {
  if (seeds) return;
  const char *f = getenv("HX_CORPUS");
  FILE *fp = f ? fopen(f, "rb") : NULL;
  if (!fp) hx_harness_error("no corpus");
  seeds = malloc(sizeof *seeds * 2000);
  uint32_t n;
  while (nseeds < 2000 && fread(&n, 4, 1, fp) == 1) {
    seeds[nseeds].p = malloc(n + 1);
    if (fread(seeds[nseeds].p, 1, n, fp) != n) hx_harness_error("bad corpus");
    seeds[nseeds++].n = n;
  }
  fclose(fp);
}
static char *seed_pick(size_t *n) { seeds_load(); size_t i = rnd(nseeds); *n = seeds[i].n; return ar_str(seeds[i].p, *n); }

/* ---- mutations */
static const char *toks[] = { "[", "]", "{", "}", ",", ":", "\"", "\"a\"", "1", "-", "0", "01", ".", "e", "E+", "1.5", "true", "false", "null", "tru", "nul", "\\", "\\u", "\\ud83d\\ude00", "\\u00e9", "\"\\", " ", "\n", "\t", "\r", "\"\"", "/", "//", "\xc3\xa9", "\xff", "1e5", "-0", "\x7f", "\x01", "123456789012345678901234567890", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "\f", "\v", "'", "NaN", "+1", ".5", "1.", "1e", "0x1", "\xef\xbb\xbf", "#", "\xc2\xa0" };
char *mutate(char *p, size_t *n, int times) {
  char *b = ar_alloc(*n + 400 + (size_t)times * 64);
  size_t k = *n, cap = *n + 399 + (size_t)times * 64;
  memcpy(b, p, k);
  while (times-- > 0) {
    size_t at = k ? rnd(k + 1) : 0;
    switch (rnd(8)) {
      case 0: if (k) { at = rnd(k); b[at] ^= 1 << rnd(8); } break;
      case 1: if (k) { size_t d = 1 + rnd(k - (at < k ? at : k - 1) < 4 ? 1 : 4); if (at + d > k) d = k - at; memmove(b + at, b + at + d, k - at - d); k -= d; } break;
      case 2: case 3: case 4: {
        const char *t = toks[rnd(sizeof toks / sizeof *toks)];
        size_t m = strlen(t);
        if (k + m <= cap) { memmove(b + at + m, b + at, k - at); memcpy(b + at, t, m); k += m; }
        break;
      }
      case 5: if (k) k = rnd(k + 1); break;                         /* cut */
      case 6: if (k) { b[rnd(k)] = (char)rnd(256); } break;
      default: if (k > 2) { size_t a = rnd(k), m = 1 + rnd(k - a < 30 ? k - a : 30); if (k + m <= cap && m <= k - a) { char t[32]; memcpy(t, b + a, m > 31 ? 31 : m); if (m > 31) m = 31; memmove(b + at + m, b + at, k - at); memcpy(b + at, t, m); k += m; } }
    }
  }
  *n = k;
  return b;
}
static char *show_bytes(const char *p, size_t n) {
  char *b = ar_alloc(420); size_t k = 0;
  for (size_t i = 0; i < n && k < 380; i++) { unsigned char c = p[i]; if (c >= 32 && c < 127 && c != '\\') b[k++] = c; else k += sprintf(b + k, "\\x%02x", c); }
  if (k >= 380) strcpy(b + k, "...");
  return b;
}

/* ---- one text against the reference */
static void check_text(struct cee_state *st, const char *p, size_t n, int eof, const jv *want, const char *how) {
  jv *m; unsigned u;
  int acc = ref_parse(p, n, eof, &m, &u);
  if (u & REF_U_TRAIL) { COUNT("texts with a comma before a bracket"); u &= ~REF_U_TRAIL; }
  if (want) {      /* generated from a value: the reference parser must agree with the generator */
    if (!acc || !jv_eq(m, want, 0)) hx_harness_error("reference parser disagrees with the generator on %s: %s vs %s", show_bytes(p, n), jv_show(m), jv_show(want));
  }
  char *buf = hx_dup(p, n);
  struct cee_json *j = (struct cee_json *)buf;
  int line = -77;
  OP("parse %s eof=%d %zu bytes: %s", how, eof, n, show_bytes(p, n));
  int r = L(cee_json_parsex(st, buf, n, &j, eof, &line));
  free(buf);       /* the value must not depend on the text any more */
  OB(r); OB(j != NULL);
  CK((r == 0) == (j != NULL), "the parser returned %d with %s value", r, j ? "a" : "no");
  if (r) { COUNT("texts rejected"); CK(line >= 0 && (size_t)line <= ref_lines(p, n), "error at line %d of a text of %zu lines", line, ref_lines(p, n)); OB(line); }
  else COUNT("texts accepted");
  if (u & ~REF_U_NUL) {
    COUNT("texts with unspecified features");
    if (!(u & (REF_U_COMMENT | REF_U_GIVEUP))) {
      /* whether the feature is accepted is open, but not what lies around it */
      CK(acc || r, "accepted a malformed text of %zu bytes %s (%s)", n, show_bytes(p, n), how);
      if (!acc) COUNT("malformed texts with unspecified features");
      if (u == REF_U_DEPTH && j) {
        char *d = L(real_diff(j, m, 0));
        CK(!d, "wrong value for a deep text %s: %s", show_bytes(p, n), d);
        COUNT("values compared beyond the documented depth");
      }
      if (u & REF_U_DEPTH) hx->nontrivial = 1;
    }
    if (j) real_observe(j);
    return;
  }
  if (u & REF_U_NUL) {
    CK((r == 0) == acc, "%s text %s", r ? "rejected a well-formed" : "accepted a malformed", show_bytes(p, n));
    if (j && real_diff(j, m, 0)) COUNT("known:u0000-truncates");
    return;
  }
  CK((r == 0) == acc, "%s text %s (%s)", r ? "rejected a well-formed" : "accepted a malformed", show_bytes(p, n), how);
  if (j) {
    char *d = L(real_diff(j, m, 0));
    CK(!d, "wrong value for %s: %s", show_bytes(p, n), d);
    real_observe(j);
    COUNT("values compared");
    hx->nontrivial = 1;
  } else hx->nontrivial = 1;
}
static char *rep(const char *a, size_t k, const char *mid, const char *z, size_t *n) {
  size_t la = strlen(a), lm = strlen(mid), lz = strlen(z);
  char *b = ar_alloc(k * (la + lz) + lm + 1), *q = b;
  for (size_t i = 0; i < k; i++) { memcpy(q, a, la); q += la; }
  memcpy(q, mid, lm); q += lm;
  for (size_t i = 0; i < k; i++) { memcpy(q, z, lz); q += lz; }
  *n = q - b;
  return b;
}
static char *num_text(size_t *n) {
  char b[700]; int k = 0;
  switch (rnd(7)) {
    case 0: k = sprintf(b, "%lld", (long long)gen_i64()); break;
    case 1: k = sprintf(b, "%llu", (unsigned long long)(rnd64() | 1ull << 63)); break;
    case 2: { static const char *e[] = { "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "99999999999999999999", "-0", "0", "-0.0", "0e0", "0E-5", "10000000000000000000000000000000000000000000000000000000000000001", "4.9406564584124654e-324", "2.4703282292062328e-324", "2.4703282292062327e-324", "1.7976931348623157e308", "1e308", "0.1e1", "9007199254740993", "9007199254740993.0", "179769313486231580793728971405301e277" }; k = sprintf(b, "%s", e[rnd(sizeof e / sizeof *e)]); break; }
    case 3: k = sprintf(b, "%.17g", gen_double()); break;
    case 4: k = sprintf(b, "%.*f", (int)rnd(20), (double)gen_i64() / 1e6); break;
    default: {        /* long digit strings around every internal buffer size */
      int a = (int)rnd(chance(80) ? 20 : 250), f = (int)rnd(chance(50) ? 3 : 250), e = (int)rnd(3);
      if (chance(30)) b[k++] = '-';
      if (chance(10)) b[k++] = '0';
      else { b[k++] = '1' + rnd(9); for (int i = 0; i < a; i++) b[k++] = '0' + rnd(10); }
      if (f) { b[k++] = '.'; for (int i = 0; i < f; i++) b[k++] = '0' + rnd(10); }
      if (e) { k += sprintf(b + k, "%c%s%d", "eE"[rnd(2)], e == 2 ? (chance(50) ? "-" : "+") : "", (int)rnd(chance(90) ? 40 : 330)); }
      b[k] = 0;
    }
  }
  *n = k;
  return ar_str(b, k);
}
/* every sequence of the eight kinds of token, shortest first: sequence number nr, spelled out */
static size_t token_sequence(unsigned long long nr, char *b) {
  static const char *scalar[] = { "1", "true", "null", "false", "-0.5e1" };
  unsigned long long m = 8, spell = nr;
  int len = 1;
  while (nr >= m) { nr -= m; m *= 8; len++; }
  size_t k = 0;
  for (int i = 0; i < len; i++, nr /= 8) {
    const char *s = (const char *[]){ "[", "]", "{", "}", ",", ":", "\"a\"", scalar[(spell + i) % 5] }[nr % 8];
    if (k && s[0] != '"' && (isalnum((unsigned char)s[0]) || s[0] == '-') && !strchr("[]{},:\"", b[k - 1])) b[k++] = ' ';
    k += sprintf(b + k, "%s", s);
  }
  return k;
}
/* a well-formed sequence of tokens, written as one character each */
static void gram(char *b, int *k, int cap, int d) {
  int what = (int)rnd(d ? 6 : 3), w = (int)rnd(4);
  if (what < 3 || *k + 12 > cap) { b[(*k)++] = "s1tfn"[rnd(5)]; return; }
  b[(*k)++] = what == 3 ? '[' : '{';
  for (int i = 0; i < w && *k + 12 < cap; i++) {
    if (i) b[(*k)++] = ',';
    if (what != 3) { b[(*k)++] = 's'; b[(*k)++] = ':'; }
    gram(b, k, cap, d - 1);
  }
  b[(*k)++] = what == 3 ? ']' : '}';
}
static size_t gram_text(char *t, const char *b, int k) {
  size_t n = 0;
  for (int i = 0; i < k; i++) {
    const char *s = b[i] == 's' ? (const char *[]){ "\"a\"", "\"b\"", "\"\"", "\"}\"", "\",\"" }[rnd(5)] : b[i] == '1' ? (const char *[]){ "1", "-2.5", "0", "18446744073709551615" }[rnd(4)] : b[i] == 't' ? "true" : b[i] == 'f' ? "false" : b[i] == 'n' ? "null" : NULL;
    int word = i && strchr("1tfn", b[i]) && strchr("1tfn", b[i - 1]);
    if (word || chance(8)) t[n++] = " \n\t\r"[rnd(4)];
    if (s) n += sprintf(t + n, "%s", s); else t[n++] = b[i];
  }
  t[n] = 0;
  return n;
}
#define SEQ_PER_CASE 25
void d_c16(void) {
  struct cee_state *st = L(cee_state_mk(8));
  static const jopt o = { .maxdepth = 6, .width = 6, .keyrange = 0 };
  int kind = (int)rnd(11), reps = 1 + (int)rnd(4);
  size_t n;
  for (unsigned long long i = 0; i < SEQ_PER_CASE && !hx->src; i++) {
    char b[200];
    n = token_sequence(hx->casenr * SEQ_PER_CASE + i, b);
    check_text(st, b, n, 1, NULL, "token sequence");
    COUNT("token sequences enumerated");
  }
  if (hx->casenr < 16) {     /* the known case, probed on every run */
    check_text(st, "\"a\\u0000b\"", 10, 1, NULL, "probe");
  }
  if (hx->casenr % 1201 == 31) { kind = 20 + (int)(hx->casenr / 1201 % 4); reps = 1; }
  for (int q = 0; q < reps; q++) {
    int eof = chance(70);
    switch (kind) {
      case 20: case 21: case 22: {
        jv *v = gen_vast(kind - 20, 0);
        char *t = emit_text(v, (int)rnd(32) & ~ST_DUP, &n);
        int mu = chance(20);
        if (mu) t = mutate(t, &n, 1);
        check_text(st, t, n, eof, mu ? NULL : v, "vast");
        break;
      }
      case 23: {      /* a number of very many digits */
        size_t k = 65500 + rnd(100); char *b = ar_alloc(k + 40); int w = (int)rnd(3);
        n = w == 0 ? sprintf(b, "[-0.") : w == 1 ? sprintf(b, "[12") : sprintf(b, "[1.");
        for (size_t i = 0; i < k; i++) b[n++] = w == 0 && i < k / 2 * chance(99) ? '0' : '0' + rnd(10);
        n += w == 1 ? sprintf(b + n, "e-%zu,7]", k) : sprintf(b + n, ",7]");
        check_text(st, b, n, eof, NULL, "vast");
        break;
      }
      case 0: case 1: case 2: {
        jv *v = gen_jv(&o, 0);
        char *t = emit_text(v, (int)rnd(32), &n);
        check_text(st, t, n, eof, v, "well-formed");
        break;
      }
      case 3: {
        jv *v = gen_jv(&o, 0);
        char *t = emit_text(v, (int)rnd(32), &n);
        t = mutate(t, &n, 1 + (int)rnd(3));
        check_text(st, t, n, eof, NULL, "mutated");
        break;
      }
      case 4: {
        char *t = seed_pick(&n);
        if (chance(60)) t = mutate(t, &n, 1 + (int)rnd(3));
        check_text(st, t, n, eof, NULL, "seed");
        break;
      }
      case 5: {                /* token soup: dense around the grammar */
        char b[200]; size_t k = 0;
        int m = 1 + (int)rnd(9), lim = chance(50) ? 20 : (int)(sizeof toks / sizeof *toks);
        for (int i = 0; i < m; i++) { const char *s = toks[rnd(lim)]; size_t l = strlen(s); if (k + l > sizeof b) break; memcpy(b + k, s, l); k += l; }
        check_text(st, b, k, eof, NULL, "tokens");
        break;
      }
      case 10: {               /* a sequence of tokens from the grammar, and its neighbours */
        char b[120], t[3000];
        int k = 0;
        gram(b, &k, 60, 1 + (int)rnd(6));
        for (int e = (int)rnd(4); e > 0; e--) {
          int at = (int)rnd(k + 1), to = (int)rnd(k + 1);
          char any = "[]{},:s1tfn"[rnd(11)], x;
          switch (rnd(5)) {
            case 0: if (at < k) { memmove(b + at, b + at + 1, k - at - 1); k--; } break;
            case 1: if (k < 100) { memmove(b + at + 1, b + at, k - at); b[at] = any; k++; } break;
            case 2: if (at < k) b[at] = any; break;
            case 3: if (at < k && to < k) { x = b[at]; b[at] = b[to]; b[to] = x; } break;
            default: if (at < k && k < 100) { memmove(b + at + 1, b + at, k - at); k++; }
          }
        }
        if (chance(30)) for (int a = 1 + (int)rnd(2); a > 0 && k < 110; a--) b[k++] = "]}"[rnd(2)];
        if (!k) b[k++] = '[';
        n = gram_text(t, b, k);
        check_text(st, t, n, eof, NULL, "grammar tokens");
        COUNT("token sequences near the grammar");
        break;
      }
      case 6: {                /* dense characters */
        char b[16]; size_t k = rnd(11);
        static const char al[] = "[]{},:\"01-.eE tfn\\u/ \n";
        for (size_t i = 0; i < k; i++) b[i] = al[rnd(sizeof al - 1)];
        check_text(st, b, k, eof, NULL, "characters");
        break;
      }
      case 7: {
        char *t = num_text(&n);
        if (chance(25)) t = mutate(t, &n, 1);
        size_t m; char *w;
        switch (rnd(3)) { case 0: check_text(st, t, n, eof, NULL, "number"); break;
          case 1: w = ar_alloc(n + 3); w[0] = '['; memcpy(w + 1, t, n); w[n + 1] = ']'; m = n + 2; check_text(st, w, m, eof, NULL, "number in an array"); break;
          default: w = ar_alloc(n + 8); memcpy(w, "{\"k\":", 5); memcpy(w + 5, t, n); w[n + 5] = '}'; m = n + 6; check_text(st, w, m, eof, NULL, "number in an object"); }
        break;
      }
      case 8: {                /* strings, with every kind of escape, between quotes or as a key */
        size_t k; char *s = gen_text(&k, 30);
        jv *v = jv_s(s, k);
        if (chance(30)) { jv *ob = jv_new(JO); jv_set(ob, s, v); v = ob; }
        char *t = emit_text(v, ST_ESC | (chance(50) ? ST_WS : 0), &n);
        int mu = chance(40);
        if (mu) t = mutate(t, &n, 1);
        check_text(st, t, n, eof, mu ? NULL : v, "string");
        break;
      }
      default: {               /* nesting: up to the documented depth everything must be accepted */
        size_t d = chance(40) ? 480 + rnd(21) : 1 + rnd(500);
        static const char *op[] = { "[", "{\"a\":", "[1,", "[{\"b\":[],\"k\":", "{\"x\":1,\"a\":" }, *cl[] = { "]", "}", "]", "}]", "}" };
        int s = (int)rnd(5);
        size_t per = s == 3 ? 2 : 1;
        if (d / per * per + (s == 3) > 500) d = 500 - (s == 3);
        const char *mid = s == 1 || s == 4 || s == 3 ? (chance(50) ? "null" : "\"\"") : chance(50) ? "" : "7";
        if (s == 2 && !*mid) mid = "2";
        int beyond = chance(30);      /* deeper than documented: may be refused, must not be misread */
        if (beyond) d = 500 + (chance(60) ? rnd(40) : rnd(1200));
        char *t = rep(op[s], d / per, mid, cl[s], &n);
        if (chance(20)) n -= 1 + rnd(3);
        if (beyond) switch (rnd(6)) {
          case 0: n -= n > 120 ? 1 + rnd(120) : 0; break;                                     /* unclosed */
          case 1: { size_t a = 1 + rnd(60); char *w = ar_alloc(n + a); memcpy(w, t, n); memset(w + n, "]}"[rnd(2)], a); t = w; n += a; break; }   /* closed too often */
          case 2: { size_t k = n - 1 - rnd(n / 3); if (t[k] == ']') t[k] = '}'; else if (t[k] == '}') t[k] = ']'; break; }   /* closed by the wrong bracket */
          case 3: { size_t k = 0; for (size_t i = 0; i < n; i++) k += t[i] == '[' || t[i] == '{'; char *w = ar_alloc(n + 200); size_t cut = n; while (cut && (t[cut - 1] == ']' || t[cut - 1] == '}')) cut--; memcpy(w, t, cut); size_t keep = 490 + rnd(40); if (keep > n - cut) keep = n - cut; memcpy(w + cut, t + cut, keep); t = w; n = cut + keep; break; }   /* as many closings as are tracked */
        }
        check_text(st, t, n, eof, NULL, beyond ? "deep" : "nested");
        COUNTMAX("nesting depth", d);
      }
    }
  }
  LV(cee_del(st));
  if (!hx_warm) CK(!hx_track || hx_live_blocks() == 0, "parsing leaves %llu blocks after the state is deleted", (unsigned long long)hx_live_blocks());
  if (hx_live_blocks()) hx_forget_all();
}

/* ---- C17 */
static double cpu_now(void) { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void shifted(struct cee_state *st, const char *p, size_t n);
static void on_lines(struct cee_state *st);
static void hostile(struct cee_state *st, const char *p, size_t n, int eof, const char *how) {
  char *buf = hx_dup(p, n);      /* exactly n bytes: one byte more is a redzone */
  struct cee_json *j = (struct cee_json *)buf;
  int line = -77;
  OP("parse %s eof=%d %zu bytes: %s", how, eof, n, n < 400 ? show_bytes(p, n) : "");
  hx->sig = hx_mix(hx->sig, hx_hash(p, n, 5));
  double t0 = cpu_now();
  int r = L(cee_json_parsex(st, buf, n, &j, eof, &line));
  double dt = cpu_now() - t0, limit = 0.5 + n * 4e-6;
  for (int again = 0; again < 2 && dt > limit; again++) {      /* slow, or disturbed? the best of three counts */
    struct cee_state *s2 = L(cee_state_mk(8)); struct cee_json *j2 = NULL; int l2 = 0;
    COUNT("timings repeated");
    t0 = cpu_now();
    L(cee_json_parsex(s2, buf, n, &j2, eof, &l2));
    double d2 = cpu_now() - t0;
    if (d2 < dt) dt = d2;
    LV(cee_del(s2));
  }
  CK(!memcmp(buf, p, n), "the parser changed the buffer it was given");
  free(buf);
  OB(r);
  CK((r == 0) == (j != NULL), "the parser returned %d with %s value", r, j ? "a" : "no");
  if (r) { COUNT("buffers rejected"); CK(line >= 0 && (size_t)line <= ref_lines(p, n), "error at line %d of a buffer of %zu lines", line, ref_lines(p, n)); OB(line); }
  else { COUNT("buffers accepted"); if (n < 100000) LV(real_observe(j)); }
  if (eof && n < 4000 && chance(12) && !(n && (unsigned char)p[0] == 0xEF)) shifted(st, p, n);
  COUNTN("bytes parsed", n);
  COUNTMAX("buffer bytes", n);
  if (n > 200000) { COUNT("buffers over 200 kB"); COUNTMAX("microseconds of CPU for a buffer over 200 kB", dt * 1e6); }
  CK(dt < limit, "parsing %zu bytes took %.1f s of CPU, %.1f us per byte", n, dt, dt * 1e6 / n);
  hx->nontrivial = 1;
}
static void still_usable(struct cee_state *st) {
  static const char t[] = "{\"a\":[1,-2.5,\"x\\ny\",{}],\"b\":null}";
  char *buf = hx_dup(t, sizeof t - 1);
  struct cee_json *j = NULL; int line = 0;
  CK(L(cee_json_parsex(st, buf, sizeof t - 1, &j, true, &line)) == 0 && j, "after hostile input a good text is rejected");
  free(buf);
  jv *m; unsigned u;
  ref_parse(t, sizeof t - 1, 1, &m, &u);
  char *d = L(real_diff(j, m, 0));
  CK(!d, "after hostile input a good text is misread: %s", d);
  COUNT("usability checks");
}
void d_c17(void) {
  struct cee_state *st = L(cee_state_mk(8));
  static const jopt o = { .maxdepth = 5, .width = 5, .keyrange = 0 };
  int kind = (int)rnd(13);
  int big = hx->casenr % 61 == 7;      /* large buffers: a share of the cases */
  size_t n;
  if (big) {
    size_t N = hx_thorough ? 1u << (17 + rnd(5)) : 1u << (16 + rnd(4));
    int shape = (int)rnd(20);
    char *b; size_t k = 0;
    static const char *unit[] = { "[", "{", "{\"a\":", "[1,", "9", "\"", "\"a\":", "\\u0041", "[]", "{},", "-", " ", "\n", "\\", "a", "[[],", };
    switch (shape) {
      case 0: case 1: case 2: case 3: {
        const char *s = unit[rnd(sizeof unit / sizeof *unit)]; size_t l = strlen(s);
        b = ar_alloc(N + 8);
        while (k + l < N) { memcpy(b + k, s, l); k += l; }
        break;
      }
      case 4: b = ar_alloc(N + 8); b[k++] = '"'; while (k < N) b[k++] = 'a' + k % 26; if (chance(60)) b[k++] = '"'; break;
      case 5: b = ar_alloc(N + 16); b[k++] = '"'; while (k + 7 < N) { memcpy(b + k, "\\u00e9", 6); k += 6; } if (chance(60)) b[k++] = '"'; break;
      case 6: b = ar_alloc(N + 16); b[k++] = '['; while (k + 3 < N) { b[k++] = '1'; b[k++] = ','; } if (chance(60)) b[k++] = ']'; break;
      case 7: b = ar_alloc(N + 64); b[k++] = '{'; for (int i = 0; k + 30 < N; i++) k += sprintf(b + k, "\"k%d\":%d,", i, i); if (chance(60)) b[k++] = '}'; break;
      case 8: b = ar_alloc(N + 64); b[k++] = '{'; while (k + 30 < N) k += sprintf(b + k, "\"k%d\":%d,", (int)rnd(20), 1); if (chance(60)) b[k++] = '}'; break;
      case 9: b = ar_alloc(N + 16); b[k++] = '-'; b[k++] = '1'; b[k++] = '.'; while (k < N) b[k++] = '0' + k % 10; if (chance(40)) { memcpy(b + k, "e-5", 3); k += 3; } break;
      case 10: b = ar_alloc(N); for (; k < N; k++) b[k] = (char)rnd64(); break;
      case 11: b = ar_alloc(N + 16); b[k++] = '['; while (k + 12 < N) { memcpy(b + k, "{\"a\":[{}]},", 11); k += 11; } if (chance(60)) b[k++] = ']'; break;
      case 12: b = ar_alloc(N + 16); b[k++] = '['; while (k + 12 < N) { memcpy(b + k, "\"\\\\\\\"x\",", 9); k += 9; } if (chance(60)) b[k++] = ']'; break;
      case 13: b = ar_alloc(N + 16); while (k + 2 < N) { b[k++] = '['; } b[0] = '['; memset(b + N / 2, ']', k - N / 2); break;
      case 14: b = ar_alloc(N + 16); b[k++] = '['; while (k + 12 < N) { memcpy(b + k, "true,null,\n", 11); k += 11; } b[k++] = ']'; break;
      case 15: case 16: {       /* a stretch of one kind of token, then another kind: what is looked for may lie far away */
        static const char *pc[] = { "\"a\",", "1,", "\"\",", "-,", "\"a\":1,", "[],", "null,", "truf,", "\"\\n\",", "e,", "\"" };
        b = ar_alloc(N + 64);
        b[k++] = "[{ "[rnd(3)];
        for (int part = 2 + (int)rnd(3), i = 1; i <= part; i++) { const char *s = pc[rnd(sizeof pc / sizeof *pc)]; size_t l = strlen(s); while (k + l < N * i / part) { memcpy(b + k, s, l); k += l; } }
        if (chance(50)) b[k++] = "\"]}1"[rnd(4)];
        break;
      }
      case 17: {       /* many strings, then many tokens that no string ends (and the other way round) */
        b = ar_alloc(N + 64); b[k++] = '[';
        int first = chance(50);
        for (int i = 0; i < 2; i++) { const char *s = (i ^ first) ? "\"ab\"," : chance(50) ? "1," : "[],"; size_t l = strlen(s); while (k + l < N * (i + 1) / 2) { memcpy(b + k, s, l); k += l; } }
        if (chance(60)) { b[k++] = '1'; b[k++] = ']'; }
        break;
      }
      default: { jopt w = o; w.width = 40; w.maxdepth = 4; jv *v = jv_new(JA); for (int i = 0; i < 40; i++) jv_push(v, gen_jv(&w, 1)); b = emit_text(v, (int)rnd(32), &k); if (chance(50)) { b = mutate(b, &k, 1); } }
    }
    hostile(st, b, k, chance(70), "large");
    still_usable(st);
  } else switch (kind) {
    case 0: case 1: {        /* every prefix of a document */
      jv *v = gen_jv(&o, 0);
      char *t = chance(50) ? emit_text(v, (int)rnd(32), &n) : seed_pick(&n);
      if (n > 150) n = 150;
      int eof = chance(70);
      for (size_t i = 0; i <= n; i++) hostile(st, t, i, eof, "prefix");
      break;
    }
    case 2: case 3: {
      char b[300]; size_t k = rnd(chance(70) ? 24 : 300);
      for (size_t i = 0; i < k; i++) b[i] = (char)rnd64();
      hostile(st, b, k, chance(50), "noise");
      break;
    }
    case 4: case 5: case 6: {
      jv *v = gen_jv(&o, 0);
      char *t = emit_text(v, (int)rnd(32), &n);
      t = mutate(t, &n, 1 + (int)rnd(12));
      hostile(st, t, n, chance(60), "mutated");
      break;
    }
    case 7: { char *t = seed_pick(&n); t = mutate(t, &n, (int)rnd(8)); hostile(st, t, n, chance(60), "seed"); break; }
    case 8: {               /* a token cut at the very end of the buffer */
      static const char *cut[] = { "tru", "t", "fals", "nul", "n", "\"", "\"\\", "\"\\u", "\"\\u1", "\"\\u12", "\"\\u123", "\"\\ud83d", "\"\\ud83d\\", "\"\\ud83d\\u", "\"\\ud83d\\ude0", "-", "1", "12", "1.", "1.5", "1e", "1e+", "1E-5", "0", "/", "//", "// x", "\"abc", "\"a\\n", "\xc3", "\"\xe2\x82", "[", "{", "{\"a\"", "{\"a\":", "[1", "[1,", " ", "\n", "\"\\\"", "-0", "123456789012345678901234567890" };
      const char *c = cut[rnd(sizeof cut / sizeof *cut)];
      static const char *pre[] = { "", "[", "[1,", "{\"a\":", "{\"a\":[", " ", "\n\n", "{" };
      const char *pf = pre[rnd(8)];
      char b[200]; size_t k = sprintf(b, "%s", pf); memcpy(b + k, c, strlen(c)); k += strlen(c);
      for (int eof = 0; eof < 2; eof++) hostile(st, b, k, eof, "cut token");
      break;
    }
    case 9: {
      size_t d = 495 + rnd(40);
      static const char *op[] = { "[", "{\"a\":", "[[],", "[{\"k\":" }, *cl[] = { "]", "}", "]", "}]" };
      int s = (int)rnd(4);
      if (s == 3) d /= 2;
      char *t = rep(op[s], d, chance(50) ? "1" : "", cl[s], &n);
      if (chance(30)) n = rnd(n);
      hostile(st, t, n, chance(70), "deep");
      break;
    }
    case 11: { int q = 4; while (q--) on_lines(st); break; }
    case 10: {
      char b[16]; size_t k = rnd(9);
      static const char al[] = "[]{},:\"01-.eE tfn\\u/ \n\0";
      for (size_t i = 0; i < k; i++) b[i] = al[rnd(sizeof al - 1)];
      for (int q = 0; q < 6; q++) { if (k) b[rnd(k)] = al[rnd(sizeof al - 1)]; hostile(st, b, k, chance(50), "characters"); }
      break;
    }
    default: {
      char *t = num_text(&n);
      hostile(st, t, n, chance(50), "number at the end");
      if (n > 1) hostile(st, t, n - 1, chance(50), "number at the end");
    }
  }
  if (chance(40)) still_usable(st);
  LV(cee_del(st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
}

/* ---- the line of an error: line ends before the text that is wrong move it down, whatever comes after does not */
static int line_of(struct cee_state *st, const char *p, size_t n, int *line) {
  char *buf = hx_dup(p, n);
  struct cee_json *j = (struct cee_json *)buf;
  *line = -77;
  int r = L(cee_json_parsex(st, buf, n, &j, true, line));
  free(buf);
  CK((r == 0) == (j != NULL), "the parser returned %d with %s value", r, j ? "a" : "no");
  OB(r); OB(r ? *line : 0);
  return r;
}
/* a text moved down by m line ends */
static void shifted(struct cee_state *st, const char *p, size_t n) {
  int l0, l1;
  size_t m = 1 + rnd(chance(80) ? 6 : 300), k = 0;
  if (rnd(60) == 0) m = 65530 + rnd(12);
  char *t = ar_alloc(n + 3 * m + 1);
  for (size_t i = 0; i < m; i++) { if (chance(10)) t[k++] = " \t"[rnd(2)]; if (chance(20)) t[k++] = '\r'; t[k++] = '\n'; }
  memcpy(t + k, p, n); k += n;
  OP("parse %zu bytes, then below %zu line ends: %s", n, m, show_bytes(p, n));
  int r0 = line_of(st, p, n, &l0), r1 = line_of(st, t, k, &l1);
  CK((r0 == 0) == (r1 == 0), "a text %s is %s below %zu line ends", show_bytes(p, n), r1 ? "rejected" : "accepted", m);
  if (r0) { CK(l1 == l0 + (int)m, "an error at line %d is reported at line %d below %zu line ends: %s", l0, l1, m, show_bytes(p, n)); COUNT("error lines compared below line ends"); hx->nontrivial = 1; COUNTMAX("line ends before a text", m); }
}
/* the tokens of a document on lines of their own, with something wrong between two of them */
static void on_lines(struct cee_state *st) {
  static const jopt o = { .maxdepth = 5, .width = 5, .keyrange = 0 };
  static const char *bad[] = { "@", "truf", "\"\\q\"", "\"\x01\"", "-", "+1", "'", "nul", "\"\n\"", "#", "-,", "tru\n", "\"\\u12\"", "1e", "0x1", ".5", "\xff" };
  size_t n, k1 = 0, k2 = 0, i = 0, lines = 0;
  jv *v = gen_jv(&o, 0);
  if (chance(40)) { jv *a = jv_new(JA); int k = 1 + (int)rnd(20); while (k--) jv_push(a, gen_jv(&o, 3)); jv_push(a, v); v = a; }
  char *t = emit_text(v, 0, &n);
  int end_mode = (int)rnd(3);      /* \n, \r\n, either or \r */
  const char *b = bad[rnd(sizeof bad / sizeof *bad)];
  size_t at = rnd(n + 1), many = rnd(40) == 0 ? 66000 : 6;
  char *p1 = ar_alloc(2 * n + 100), *p2 = ar_alloc(n * 14 + 300 + 2 * (many + 10));
  int placed = 0;
  size_t many0 = many;
  while (i <= n) {
    if (!placed && i >= at) { memcpy(p1 + k1, " ", 1); k1++; memcpy(p1 + k1, b, strlen(b)); k1 += strlen(b); p2[k2++] = ' '; memcpy(p2 + k2, b, strlen(b)); k2 += strlen(b); placed = 1; p1[k1++] = ' '; p2[k2++] = ' '; }
    if (i == n) break;
    size_t e = i + 1;
    if (t[i] == '"') { while (e < n && t[e] != '"') e += t[e] == '\\' ? 2 : 1; e++; }
    else if (!strchr("[]{},:", t[i])) while (e < n && !strchr("[]{},: \n\t\r", t[e])) e++;
    memcpy(p1 + k1, t + i, e - i); k1 += e - i;
    memcpy(p2 + k2, t + i, e - i); k2 += e - i;
    size_t w = many > 6 ? many : rnd(4);
    many = 6;
    while (w--) {
      int q = end_mode == 2 ? (int)rnd(3) : end_mode;
      if (q == 0) p2[k2++] = '\n'; else if (q == 1) { p2[k2++] = '\r'; p2[k2++] = '\n'; } else { p2[k2++] = '\r'; p2[k2++] = ' '; }
      if (!placed) lines++;
    }
    i = e;
  }
  if (k1 > 2 * n + 100 || k2 > n * 14 + 300 + 2 * (many0 + 10)) hx_harness_error("on_lines overflow");
  OP("%s put wrong after %zu lines: %s", show_bytes(b, strlen(b)), lines, show_bytes(p1, k1));
  int l1, l2, r1 = line_of(st, p1, k1, &l1), r2 = line_of(st, p2, k2, &l2);
  CK(r1 && r2, "a text with %s between its tokens is accepted: %s", show_bytes(b, strlen(b)), show_bytes(r1 ? p2 : p1, r1 ? k2 : k1));
  CK(l2 - l1 == (int)lines, "an error below %zu line ends is reported at line %d, on the first line at %d: %s", lines, l2, l1, show_bytes(p2, k2));
  COUNT("error lines below tokens compared"); COUNTMAX("line ends before an error", lines);
  hx->nontrivial = 1;
}
/* ---- the text itself is what the search varies: first byte the end-of-input flag, the rest the text */
void c18_parsed(struct cee_state *st, jv *m, struct cee_json *j);
static void raw(int opt) {
  struct cee_state *st = L(cee_state_mk(8));
  int eof = rnd(256) & 1;
  char *t; size_t n;
  if (hx->src < hx->src_end) { n = hx->src_end - hx->src; t = ar_str((const char *)hx->src, n); hx->src = hx->src_end; }
  else { t = seed_pick(&n); t = mutate(t, &n, (int)rnd(4)); }
  if (opt == 16) check_text(st, t, n, eof, NULL, "raw");
  if (opt == 17) { hostile(st, t, n, eof, "raw"); still_usable(st); }
  if (opt == 18) {
    jv *m; unsigned u = 0;
    if (ref_parse(t, n, 1, &m, &u) && !(u & ~REF_U_TRAIL)) {
      char *b = hx_dup(t, n); int line = 0; struct cee_json *j = NULL;
      CK(L(cee_json_parsex(st, b, n, &j, true, &line)) == 0 && j, "a well-formed text is rejected");
      free(b);
      c18_parsed(st, m, j);
    }
  }
  LV(cee_del(st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
}
void d_c16r(void) { raw(16); }
void d_c17r(void) { raw(17); }
void d_c18r(void) { raw(18); }
