/* C18 (print/parse round trip), C19 (announced size), C23 (escaping). */
#define _GNU_SOURCE 1
#include "ref.h"
#include <sys/mman.h>
#include <unistd.h>
#include "drvj.h"
extern size_t cee_json_escape_string(const char *s, size_t s_size, char *dest, size_t dest_size, char **next_dest_p, size_t *next_dest_size);

/* what the printed text of a value denotes */
static jv *denoted(const jv *v) {
  jv *r;
  char b[64];
  switch (v->t) {
    case JD: return isfinite(v->d) ? jv_d(v->d) : jv_new(JN);
    case JUND: return jv_new(JN);
    case JX: r = jv_s(v->s, v->n); return r;
    case JBLOB: snprintf(b, sizeof b, "blob:%zu bytes", v->n); return jv_s(b, strlen(b));
    case JA: r = jv_new(JA); for (size_t i = 0; i < v->c; i++) jv_push(r, denoted(v->e[i])); return r;
    case JO: r = jv_new(JO); for (size_t i = 0; i < v->c; i++) jv_set(r, v->k[i], denoted(v->e[i])); return r;
    default: return jv_copy(v);
  }
}
static char *print_text(struct cee_state *st, struct cee_json *j, int fmt, size_t *n) {
  ssize_t k = L(cee_json_snprint(st, NULL, 0, j, fmt));
  CK(k >= 0, "the dry run of a print returned %zd", k);
  char *b = malloc(k + 1);
  ssize_t k2 = L(cee_json_snprint(st, b, k + 1, j, fmt));
  CK(k2 == k, "dry run announces %zd bytes, the print %zd", k, k2);
  CK(memchr(b, 0, k + 1) == b + k, "a print of %zd bytes is terminated at %td", k, (char *)memchr(b, 0, k + 1) - b);
  char *r = ar_str(b, k);
  free(b);
  *n = k;
  return r;
}
static const char *shorttext(const char *t, size_t n) { return ar_str(t, n > 300 ? 300 : n); }
static jv *deep(size_t d, int kind) {
  jv *v = chance(50) ? jv_i(1) : jv_new(chance(50) ? JA : JO);
  size_t have = v->t == JI ? 0 : 1;
  for (size_t i = have; i < d; i++) {
    if (kind == 0 || (kind == 2 && i % 2)) { jv *a = jv_new(JA); if (chance(20)) jv_push(a, jv_i(0)); jv_push(a, v); if (chance(20)) jv_push(a, jv_new(JN)); v = a; }
    else { jv *o = jv_new(JO); if (chance(20)) jv_set(o, "p", jv_i(0)); jv_set(o, "k", v); if (chance(20)) jv_set(o, "z", jv_s("e", 1)); v = o; }
  }
  return v;
}
/* The compact form has no white space between tokens; the pretty form has the same tokens, puts each
   element and member on a line of its own, and indents what is in a container that lies in others. */
static void layout(const char *c, size_t cn, const char *p, size_t pn) {
  size_t i = 0, tabs = 0, depth = 0; int str = 0, line = 1, last = 0;
  for (size_t k = 0; k < pn; k++) {
    char x = p[k];
    if (!str && strchr(" \t\r\n", x) && x) { if (x == '\n') { line = 1; tabs = 0; } else tabs += x == '\t'; continue; }
    CK(i < cn && c[i] == x, "the pretty output has other tokens than the compact one near %s, which has %s", ar_str(p + k, pn - k > 60 ? 60 : pn - k), ar_str(c + i, cn - i > 60 ? 60 : cn - i));
    i++;
    if (str) { if (x == '\\') { CK(i < cn && k + 1 < pn && c[i] == p[k + 1], "the pretty output has another text near %s", ar_str(p + k, pn - k > 60 ? 60 : pn - k)); i++; k++; } else if (x == '"') str = 0; continue; }
    if (x != ']' && x != '}' && (last == '[' || last == '{' || (last == ',' && depth))) {
      CK(line, "the pretty output does not begin a line at %s", ar_str(p + k, pn - k > 60 ? 60 : pn - k));
      if (x != '[' && x != '{') CK(tabs + 1 >= depth, "the pretty output indents by %zu what lies in %zu containers: %s", tabs, depth, ar_str(p + k, pn - k > 60 ? 60 : pn - k));
      COUNT("lines of pretty output");
    }
    if (x == '"') str = 1;
    else if (x == '[' || x == '{') depth++;
    else if (x == ']' || x == '}') depth--;
    last = x; line = 0; tabs = 0;
  }
  CK(i == cn, "the pretty output lacks %s", ar_str(c + i, cn - i > 60 ? 60 : cn - i));
}
static void dense(const char *c, size_t n) {
  int str = 0;
  for (size_t k = 0; k < n; k++) {
    if (str) { if (c[k] == '\\') k++; else if (c[k] == '"') str = 0; }
    else { CK(!strchr(" \t\r\n", c[k]), "the compact output has a blank before %s", ar_str(c + k, n - k > 60 ? 60 : n - k)); str = c[k] == '"'; }
  }
}
static void c18_one(struct cee_state *st, jv *m, struct cee_json *j, int parsed) {
  jv *d = denoted(m);
  size_t nodes = jv_nodes(m);
  char *d0 = L(real_diff(j, m, 0));
  CK(!d0, "the value was not built as asked: %s", d0);
  int only = m->c > 60000 ? (int)rnd(2) : -1;      /* a vast value: one of the two formats */
  char *compact = NULL; size_t cn = 0;
  for (int fmt = 0; fmt < 2; fmt++) {
    size_t n, n2; jv *back; unsigned u;
    if (only == !fmt) continue;
    char *t = print_text(st, j, fmt, &n);
    OBS(t, n);
    if (fmt == 0) { compact = t; cn = n; dense(t, n); } else if (compact) layout(compact, cn, t, n);
    int ok = ref_parse(t, n, 1, &back, &u);
    CK(ok, "the %s output is no well-formed JSON: %s", fmt ? "pretty" : "compact", shorttext(t, n));
    CK(!(u & (REF_U_UTF8 | REF_U_SURR | REF_U_RANGE | REF_U_TRAIL)), "the %s output uses something outside RFC 8259 (%u): %s", fmt ? "pretty" : "compact", u, shorttext(t, n));
    CK(jv_eq(back, d, JEQ_NUMERIC), "the %s output %s denotes another value than %s", fmt ? "pretty" : "compact", shorttext(t, n), jv_show(d));
    if (!(u & REF_U_NUL)) {
      struct cee_json *j2 = NULL; int line = 0;
      char *buf = hx_dup(t, n);
      int r = L(cee_json_parsex(st, buf, n, &j2, true, &line));
      free(buf);
      CK(r == 0 && j2, "the parser rejects the printer's %s output %s", fmt ? "pretty" : "compact", shorttext(t, n));
      char *df = L(real_diff(j2, d, JEQ_NUMERIC));
      CK(!df, "the %s output reads back differently: %s", fmt ? "pretty" : "compact", df);
      char *t2 = print_text(st, j2, fmt, &n2);
      CK(n == n2 && !memcmp(t, t2, n), "printing the value read back gives another text: %s vs %s", shorttext(t2, n2), shorttext(t, n));
      COUNT("round trips");
    }
    COUNTN("bytes printed", n);
  }
  if (chance(15) && nodes < 20000) {      /* the log printer: message, compact text, line end */
    size_t n; char *t = print_text(st, j, 0, &n);
    int fd = memfd_create("d", 0), null = chance(5), msg = (int)rnd(3);
    if (fd < 0) hx_harness_error("memfd_create");
    uint64_t live = hx_live_blocks();
    struct cee_json *what = null ? NULL : j;
    if (msg == 0) LV(cee_json_dprintf(fd, what, NULL)); else if (msg == 1) LV(cee_json_dprintf(fd, what, "%s:%d %%", "m%s", 42)); else LV(cee_json_dprintf(fd, what, ""));
    if (hx_track) CK(hx_live_blocks() == live, "printing to a descriptor leaves %lld blocks behind", (long long)(hx_live_blocks() - live));
    if (null) { t = "null"; n = 4; }
    const char *pre = msg == 1 ? "m%s:42 %" : ""; size_t pl = strlen(pre);
    off_t sz = lseek(fd, 0, SEEK_END);
    CK(sz == (off_t)(pl + n + 1), "printing to a descriptor writes %lld bytes, not %zu", (long long)sz, pl + n + 1);
    char *g = malloc(sz + 1);
    if (pread(fd, g, sz, 0) != sz) hx_harness_error("pread");
    close(fd);
    CK(!memcmp(g, pre, pl) && !memcmp(g + pl, t, n) && g[pl + n] == '\n', "printing to a descriptor writes another text: %s", shorttext(g, sz));
    free(g);
    COUNT("prints to a descriptor");
  }
  COUNTN("values in documents", nodes);
  char *d1 = L(real_diff(j, m, 0));
  CK(!d1, "printing changed the value: %s", d1);
  hx->nontrivial = 1;
  if (parsed) COUNT("parsed documents printed"); else COUNT("built documents printed");
}
void c18_parsed(struct cee_state *st, jv *m, struct cee_json *j) { c18_one(st, m, j, 1); }
void d_c18(void) {
  struct cee_state *st = L(cee_state_mk(8));
  static const jopt o = { .maxdepth = 6, .width = 6, .strn = 1, .nul = 1, .nonfinite = 1 }, op = { .maxdepth = 6, .width = 6 };
  int kind = (int)rnd(8);
  jv *m; struct cee_json *j;
  if (hx->casenr % 97 == 5) kind = 8;
  if (hx->casenr % 211 == 6) kind = 9;
  if (hx->casenr % 1997 == 11) kind = 10;
  switch (kind) {
    case 0: case 1: case 2: {
      size_t n; int line = 0; unsigned u;
      jv *v = gen_jv(&op, 0);
      char *t = emit_text(v, (int)rnd(32), &n);
      ref_parse(t, n, 1, &m, &u);
      OP("print after parsing %zu bytes: %s", n, jv_show(m));
      hx->sig = hx_mix(hx->sig, hx_hash(t, n, 5));
      j = NULL;
      CK(L(cee_json_parsex(st, t, n, &j, true, &line)) == 0, "a well-formed text is rejected");
      c18_one(st, m, j, 1);
      break;
    }
    case 3: {      /* numbers */
      m = jv_new(JA);
      int k = 1 + (int)rnd(20);
      for (int i = 0; i < k; i++) jv_push(m, chance(70) ? jv_d(gen_double()) : chance(50) ? jv_i(gen_i64()) : jv_u(rnd64() >> rnd(64)));
      OP("print numbers %s", jv_show(m));
      j = real_build(st, m);
      c18_one(st, m, j, 0);
      break;
    }
    case 4: {      /* strings: every byte class, as value and as key */
      m = jv_new(JO);
      int k = 1 + (int)rnd(8);
      for (int i = 0; i < k; i++) { size_t n, n2; char *a = gen_text(&n, chance(10) ? 300 : 20), *b = gen_text(&n2, chance(5) ? 300 : 20); jv_set(m, a, jv_s(b, n2)); }
      OP("print strings %s", jv_show(m));
      j = real_build(st, m);
      c18_one(st, m, j, 0);
      break;
    }
    case 8: {
      size_t d = chance(50) ? 500 : 380 + rnd(121);
      m = deep(d, (int)rnd(3));
      OP("print nested %zu deep (%zu)", jv_depth(m), d);
      j = real_build(st, m);
      COUNTMAX("nesting depth printed", d);
      c18_one(st, m, j, 0);
      break;
    }
    case 10: {
      int w = (int)(hx->casenr / 1997 % 3);
      m = gen_vast(w, 1);
      OP("print vast %d: %zu members", w, m->c);
      j = real_build(st, m);
      c18_one(st, m, j, 0);
      break;
    }
    case 9: {      /* large */
      m = jv_new(chance(50) ? JA : JO);
      int k = 500 + (int)rnd(1500);
      for (int i = 0; i < k; i++) { char b[24]; snprintf(b, sizeof b, "key%d", (int)rnd(4000)); if (m->t == JA) jv_push(m, gen_jv(&op, 5)); else if (jv_find(m, b) < 0) jv_set(m, b, gen_jv(&op, 5)); }
      OP("print %zu members", m->c);
      j = real_build(st, m);
      c18_one(st, m, j, 0);
      break;
    }
    default:
      m = gen_jv(&o, 0);
      OP("print %s", jv_show(m));
      j = real_build(st, m);
      hx->sig = hx_mix(hx->sig, jv_nodes(m));
      c18_one(st, m, j, 0);
  }
  LV(cee_del(st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
}
/* ---- C19 */
static size_t n_undef(const jv *v) { size_t n = v->t == JUND; if (v->t == JA || v->t == JO) for (size_t i = 0; i < v->c; i++) n += n_undef(v->e[i]); return n; }
void d_c19(void) {
  struct cee_state *st = L(cee_state_mk(8));
  static const jopt o = { .maxdepth = 6, .width = 6, .strn = 1, .nul = 1, .nonfinite = 1, .blob = 1, .und = 1 };
  jv *m = hx->casenr % 401 == 3 ? deep(100 + rnd(401), (int)rnd(3)) : gen_jv(&o, 0);
  if (chance(10)) { jv *w = jv_new(JA); int k = (int)rnd(8); for (int i = 0; i < k; i++) { size_t n; char *s = gen_text(&n, 400); jv_push(w, jv_s(s, n)); } m = w; }
  int huge = hx->casenr % 797 == 19;
  if (huge) m = gen_vast((int)(hx->casenr / 797 % 3), 1);
  OP("print sizes of %s", jv_show(m));
  struct cee_json *j = real_build(st, m);
  int big = huge || jv_depth(m) > 90, only = m->c > 60000 ? (int)rnd(2) : -1;
  for (int fmt = 0; fmt < 2; fmt++) {
    if (only == !fmt) continue;
    ssize_t len = L(cee_json_snprint(st, NULL, 0, j, fmt));
    CK(len >= 0, "the dry run returned %zd", len);
    if (only < 0) CK(L(cee_json_snprint(st, NULL, 1000, j, fmt)) == len, "a dry run with a size announces another length");
    char *full = malloc(len + 1);
    memset(full, 'Q', len + 1);
    ssize_t r = L(cee_json_snprint(st, full, len + 1, j, fmt));
    CK(r == len, "the dry run announces %zd bytes, the real run %zd", len, r);
    CK(memchr(full, 0, len + 1) == full + len, "the text of %zd bytes is not terminated at its end", len);
    OBS(full, len);
    if (!big) {      /* the text denotes the value, "undefined" standing for what has no form in JSON */
      char *t = ar_alloc(len + 1); size_t n = 0, und = 0; int str = 0; jv *back; unsigned u;
      for (ssize_t k = 0; k < len; k++) {
        if (!str && len - k >= 9 && !memcmp(full + k, "undefined", 9)) { memcpy(t + n, "null", 4); n += 4; k += 8; und++; continue; }
        t[n++] = full[k];
        if (str && full[k] == '\\') t[n++] = full[++k]; else if (full[k] == '"') str = !str;
      }
      CK(ref_parse(t, n, 1, &back, &u) && !(u & REF_U_TRAIL) && jv_eq(back, denoted(m), JEQ_NUMERIC), "the print %s denotes another value than %s", shorttext(full, len), jv_show(m));
      CK(und == n_undef(m), "%zu times undefined in the print of %s", und, jv_show(m));
      COUNTN("undefined values printed", und);
    }
    COUNT("announced sizes compared");
    int tries = only >= 0 ? 1 : big ? 2 : len < 60 ? (int)len + 3 : 24;
    for (int q = 0; q < tries; q++) {
      size_t size = len < 60 && !big ? (size_t)q : chance(30) ? (size_t)len + rnd(3) : chance(30) ? rnd(8) : rnd(len + 4);
      char *b = malloc(size ? size : 1);      /* exactly size bytes */
      memset(b, 'Q', size ? size : 1);
      r = L(cee_json_snprint(st, b, size, j, fmt));
      CK(r == len, "with a buffer of %zu bytes the announced length is %zd, else %zd", size, r, len);
      if (size) {
        char *z = memchr(b, 0, size);
        CK(z, "a buffer of %zu bytes is left without a terminator (text of %zd)", size, len);
        if (size > (size_t)len) CK(z - b == len && !memcmp(b, full, len), "a print into %zu bytes gives another text", size);
      } else CK(b[0] == 'Q', "a print into 0 bytes wrote something");
      OB(r);
      free(b);
      COUNT("bounded prints");
    }
    char *p = NULL; size_t sz = 12345;
    int ns = chance(20);
    uint64_t s0 = hx_serial_now();
    r = L(cee_json_asprint(st, &p, ns ? NULL : &sz, j, fmt));
    (void)s0;
    CK(r == len && p, "the allocating print announces %zd, the dry run %zd", r, len);
    CK(!memcmp(p, full, len) && p[len] == 0, "the allocating print gives another text");
    CK(cee_block_size((struct cee_block *)p) >= (size_t)len + 1, "the allocating print returns a block of %zu bytes for %zd", cee_block_size((struct cee_block *)p), len);
    if (!ns) CK(sz == (size_t)len || sz == (size_t)len + 1, "the allocating print reports a buffer size of %zu for a text of %zd", sz, len);
    hx_id id = hx_bind(p);
    if (hx_track && id.base && hx_block_size(id)) CK((uintptr_t)p + len < id.base + hx_block_size(id), "the allocated buffer is too small");
    COUNT("allocating prints");
    if (chance(50)) { LV(cee_del(p)); CK(!hx_alive(id) || !hx_track, "deleting the printed buffer does not release it"); }
    free(full);
    char *d = L(real_diff(j, m, 0));
    CK(!d, "printing changed the value: %s", d);
  }
  hx->nontrivial = 1;
  LV(cee_del(st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
}
/* ---- C23 */
void d_c23(void) {
  int reps = 6;
  while (reps--) {
    size_t n = rnd(chance(70) ? 24 : chance(90) ? 200 : chance(95) ? 3000 : 100000);
    char *s = malloc(n ? n : 1);
    int mode = (int)rnd(4);
    for (size_t i = 0; i < n; i++) s[i] = mode == 0 ? (char)rnd64() : mode == 1 ? (char)rnd(0x28) : mode == 2 ? "\"\\\b\f\n\r\t\0/a"[rnd(10)] : (char)(32 + rnd(96));
    char *src = hx_dup(s, n);
    OP("escape %zu bytes mode %d", n, mode);
    hx->sig = hx_mix(hx->sig, hx_hash(s, n, 9));
    /* reference: the size every byte needs */
    size_t need = 0;
    for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; need += c == '"' || c == '\\' || c == 8 || c == 12 || c == 10 || c == 13 || c == 9 ? 2 : c < 32 ? 6 : 1; }
    size_t size = chance(50) ? need : chance(50) ? need + rnd(20) : rnd(need + 1);
    char *dst = malloc(size ? size : 1);
    memset(dst, 'Q', size ? size : 1);
    char *next = (char *)1; size_t left = 999999;
    int np = chance(80), nl = chance(80);
    size_t r = L(cee_json_escape_string(src, n, dst, size, np ? &next : NULL, nl ? &left : NULL));
    CK(!memcmp(src, s, n), "escaping changed the source");
    CK(r <= size, "escaping reports %zu bytes in a buffer of %zu", r, size);
    if (np) CK(next == dst + r, "the next position is %td, the length %zu", next - dst, r);
    if (nl) CK(left == size - r, "the reported remainder is %zu, not %zu", left, size - r);
    for (size_t i = r; i < size; i++) CK(dst[i] == 'Q', "byte %zu after the text of %zu was written", i, r);
    OBS(dst, r);
    /* decode what was written */
    size_t k = 0, i = 0;
    while (i < r) {
      unsigned char c = dst[i];
      unsigned v;
      CK(c >= 32 && c != '"', "the escaped text has a raw %02x at %zu", c, i);
      if (c == '\\') {
        CK(i + 1 < r, "the escaped text ends within an escape");
        char e = dst[i + 1];
        i += 2;
        switch (e) {
          case '"': case '\\': case '/': v = e; break;
          case 'b': v = 8; break; case 'f': v = 12; break; case 'n': v = 10; break; case 'r': v = 13; break; case 't': v = 9; break;
          case 'u': {
            CK(i + 4 <= r, "the escaped text ends within an escape");
            v = 0;
            for (int q = 0; q < 4; q++) { char h = dst[i + q]; int dgt = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; CK(dgt >= 0, "bad hexadecimal escape"); v = v * 16 + dgt; }
            CK(v < 128, "a byte became the code point %04x", v);
            i += 4;
            break;
          }
          default: FAIL("bad escape \\%c", e);
        }
      } else { v = c; i++; }
      CK(k < n && (unsigned char)s[k] == (unsigned char)v, "byte %zu (%02x) came out as %02x", k, k < n ? (unsigned char)s[k] : 0, v);
      k++;
    }
    if (size >= need) CK(k == n, "only %zu of %zu bytes were escaped into a buffer of %zu", k, n, size);
    else { COUNT("destinations too small"); if (k < n) { unsigned char c = s[k]; size_t want = c == '"' || c == '\\' || c == 8 || c == 12 || c == 10 || c == 13 || c == 9 ? 2 : c < 32 ? 6 : 1; (void)want; } }
    /* between quotes, the library's own parser reads the same bytes (when they are UTF-8 without NUL) */
    if (k == n && !memchr(s, 0, n)) {
      char *q = malloc(r + 2); q[0] = '"'; memcpy(q + 1, dst, r); q[r + 1] = '"';
      jv *m; unsigned u;
      int ok = ref_parse(q, r + 2, 1, &m, &u);
      CK(ok, "between quotes the escaped text is no JSON string");
      if (!(u & REF_U_UTF8)) {
        CK(m->n == n && !memcmp(m->s, s, n), "between quotes the escaped text denotes other bytes");
        struct cee_state *st = L(cee_state_mk(8));
        struct cee_json *j = NULL; int line = 0;
        CK(L(cee_json_parsex(st, q, r + 2, &j, true, &line)) == 0, "the parser rejects the escaped text");
        CK(strlen((char *)cee_json_to_str(j)) == n && !memcmp(cee_json_to_str(j), s, n), "the parser reads other bytes back");
        LV(cee_del(st));
        COUNT("escaped texts parsed back");
      }
      free(q);
    }
    COUNT("texts escaped"); COUNTN("bytes escaped", k);
    hx->nontrivial |= n > 0;
    free(s); free(src); free(dst);
  }
}
