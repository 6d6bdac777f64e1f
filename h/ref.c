#include "ref.h"
/* ---- arena */
struct chunk { struct chunk *next; size_t used, cap; char d[]; };
static __thread struct chunk *ar;
void *ar_alloc(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (!n) n = 16;
  if (!ar || ar->used + n > ar->cap) {
    size_t cap = n > 65536 ? n : 65536;
    int il = hx_inlib; hx_inlib = 0;      /* ours, not the library's */
    __asm__ volatile("" ::: "memory");    /* malloc is a builtin: keep the stores around it */
    struct chunk *c = malloc(sizeof *c + cap);
    __asm__ volatile("" ::: "memory");
    hx_inlib = il;
    c->next = ar; c->used = 0; c->cap = cap; ar = c;
  }
  void *p = ar->d + ar->used;
  ar->used += n;
  memset(p, 0, n);
  return p;
}
void ar_reset(void) { while (ar) { struct chunk *c = ar; ar = c->next; free(c); } }
char *ar_str(const char *s, size_t n) { char *p = ar_alloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
jv *jv_new(int t) { jv *v = ar_alloc(sizeof *v); v->t = t; return v; }
jv *jv_i(int64_t i) { jv *v = jv_new(JI); v->i = i; return v; }
jv *jv_u(uint64_t u) { jv *v = jv_new(JU); v->u = u; return v; }
jv *jv_d(double d) { jv *v = jv_new(JD); v->d = d; return v; }
jv *jv_b(int b) { jv *v = jv_new(JB); v->b = b; return v; }
jv *jv_s(const char *s, size_t n) { jv *v = jv_new(JS); v->s = ar_str(s, n); v->n = n; return v; }
static void grow(jv *a) {
  if (a->c < a->cap) return;
  size_t c = a->cap ? a->cap * 2 : 4;
  jv **e = ar_alloc(c * sizeof *e); if (a->c) memcpy(e, a->e, a->c * sizeof *e); a->e = e;
  char **k = ar_alloc(c * sizeof *k); if (a->c && a->k) memcpy(k, a->k, a->c * sizeof *k); a->k = k;
  a->cap = c;
}
void jv_ins(jv *a, size_t at, jv *v) {
  grow(a);
  memmove(a->e + at + 1, a->e + at, (a->c - at) * sizeof *a->e);
  memmove(a->k + at + 1, a->k + at, (a->c - at) * sizeof *a->k);
  if (at < a->c) a->icap = a->ic = 0;
  a->e[at] = v; a->k[at] = NULL; a->c++;
}
void jv_push(jv *a, jv *v) { jv_ins(a, a->c, v); }
static size_t khash(const char *k) { size_t h = 1469598103934665603u; while (*k) h = (h ^ (unsigned char)*k++) * 1099511628211u; return h ^ h >> 29; }
static long big_find(jv *o, const char *k) {
  if (o->icap < 2 * o->c) { o->icap = 1024; while (o->icap < 4 * o->c) o->icap *= 2; o->ix = ar_alloc(o->icap * sizeof *o->ix); memset(o->ix, 0, o->icap * sizeof *o->ix); o->ic = 0; }
  for (; o->ic < o->c; o->ic++) { size_t h = khash(o->k[o->ic]) & (o->icap - 1); while (o->ix[h]) h = (h + 1) & (o->icap - 1); o->ix[h] = (uint32_t)o->ic + 1; }
  for (size_t h = khash(k) & (o->icap - 1); o->ix[h]; h = (h + 1) & (o->icap - 1)) if (!strcmp(o->k[o->ix[h] - 1], k)) return (long)o->ix[h] - 1;
  return -1;
}
long jv_find(const jv *o, const char *k) {
  if (o->c > 200) return big_find((jv *)o, k);
  for (size_t i = 0; i < o->c; i++) if (!strcmp(o->k[i], k)) return (long)i;
  return -1;
}
jv *jv_get(const jv *o, const char *k) { long i = jv_find(o, k); return i < 0 ? NULL : o->e[i]; }
void jv_set(jv *o, const char *k, jv *v) {
  long i = jv_find(o, k);
  if (i >= 0) { o->e[i] = v; return; }
  jv_push(o, v);
  o->k[o->c - 1] = ar_str(k, strlen(k));
}
void jv_del(jv *o, size_t at) {
  memmove(o->e + at, o->e + at + 1, (o->c - at - 1) * sizeof *o->e);
  memmove(o->k + at, o->k + at + 1, (o->c - at - 1) * sizeof *o->k);
  o->c--; o->icap = o->ic = 0;
}
jv *jv_copy(const jv *v) {
  jv *r = jv_new(v->t);
  *r = *v; r->real = NULL;
  if (v->t == JA || v->t == JO) {
    r->e = NULL; r->k = NULL; r->c = r->cap = 0; r->ix = NULL; r->icap = r->ic = 0;
    for (size_t i = 0; i < v->c; i++) { jv_push(r, jv_copy(v->e[i])); if (v->t == JO) r->k[i] = v->k[i]; }
  }
  return r;
}
size_t jv_depth(const jv *v) {
  if (v->t != JA && v->t != JO) return 0;
  size_t d = 0;
  for (size_t i = 0; i < v->c; i++) { size_t x = jv_depth(v->e[i]); if (x > d) d = x; }
  return d + 1;
}
size_t jv_nodes(const jv *v) {
  size_t n = 1;
  if (v->t == JA || v->t == JO) for (size_t i = 0; i < v->c; i++) n += jv_nodes(v->e[i]);
  return n;
}
/* exact numeric comparison across the number kinds */
static int num_is(const jv *v) { return v->t == JI || v->t == JU || v->t == JD; }
static int dbl_same(double a, double b) { return (isnan(a) && isnan(b)) || (a == b && signbit(a) == signbit(b)); }
static int num_eq(const jv *a, const jv *b) {
  if (a->t == JD && b->t == JD) return dbl_same(a->d, b->d);
  if (b->t == JD) { const jv *t = a; a = b; b = t; }
  if (a->t == JD) {
    double d = a->d;
    if (isnan(d)) return 0;
    if (b->t == JI && b->i == 0 && d == 0) return !signbit(d);
    if (d != floor(d)) return 0;
    if (b->t == JI) return d >= -9223372036854775808.0 && d < 9223372036854775808.0 && (int64_t)d == b->i;
    return d >= 0 && d < 18446744073709551616.0 && (uint64_t)d == b->u;
  }
  if (a->t == b->t) return a->t == JI ? a->i == b->i : a->u == b->u;
  if (a->t == JU) { const jv *t = a; a = b; b = t; }
  return a->i >= 0 && (uint64_t)a->i == b->u;
}
int jv_eq(const jv *a, const jv *b, int how) {
  if (num_is(a) && num_is(b)) {
    if (how & JEQ_NUMERIC) return num_eq(a, b);
    if (a->t != b->t) return 0;
    return a->t == JI ? a->i == b->i : a->t == JU ? a->u == b->u : dbl_same(a->d, b->d);
  }
  int ta = a->t == JX ? JS : a->t, tb = b->t == JX ? JS : b->t;
  if (ta != tb) return 0;
  switch (ta) {
    case JN: case JUND: return 1;
    case JB: return a->b == b->b;
    case JS: case JBLOB: return a->n == b->n && !memcmp(a->s, b->s, a->n);
    default:
      if (a->c != b->c) return 0;
      for (size_t i = 0; i < a->c; i++) {
        const jv *y = b->e[i];
        if (ta == JO) {
          if (how & JEQ_ANYORDER) { y = jv_get(b, a->k[i]); if (!y) return 0; }
          else if (strcmp(a->k[i], b->k[i])) return 0;
        }
        if (!jv_eq(a->e[i], y, how)) return 0;
      }
      return 1;
  }
}
static void show(const jv *v, char *b, size_t cap, size_t *n) {
#define PUT(...) do { if (*n + 80 < cap) *n += snprintf(b + *n, cap - *n, __VA_ARGS__); } while (0)
  switch (v->t) {
    case JN: PUT("null"); break;
    case JUND: PUT("undefined"); break;
    case JB: PUT(v->b ? "true" : "false"); break;
    case JI: PUT("%lld", (long long)v->i); break;
    case JU: PUT("%lluu", (unsigned long long)v->u); break;
    case JD: PUT("%.17gd", v->d); break;
    case JS: case JX: case JBLOB:
      PUT("%s\"", v->t == JX ? "n" : v->t == JBLOB ? "blob" : "");
      for (size_t i = 0; i < v->n && i < 40; i++) { unsigned char c = v->s[i]; if (c >= 32 && c < 127) PUT("%c", c); else PUT("<%02x>", c); }
      if (v->n > 40) PUT("...%zu", v->n);
      PUT("\""); break;
    default:
      PUT(v->t == JA ? "[" : "{");
      for (size_t i = 0; i < v->c && *n + 100 < cap; i++) {
        if (i) PUT(",");
        if (v->t == JO) PUT("%.30s:", v->k[i]);
        show(v->e[i], b, cap, n);
      }
      PUT(v->t == JA ? "]" : "}");
  }
#undef PUT
}
char *jv_show(const jv *v) { char *b = ar_alloc(600); size_t n = 0; if (!v) return "(nothing)"; show(v, b, 600, &n); return b; }

/* ---- strict parser */
typedef struct { const unsigned char *p, *e; unsigned u; size_t depth; int fail; } ps;
static void ws(ps *s) { while (s->p < s->e && (*s->p == ' ' || *s->p == '\t' || *s->p == '\n' || *s->p == '\r')) s->p++; }
static int hex4(ps *s, unsigned *v) {
  *v = 0;
  for (int i = 0; i < 4; i++) {
    if (s->p >= s->e) return 0;
    int c = *s->p++;
    *v = *v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 1000);
    if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return 0;
  }
  return 1;
}
static size_t put8(char *d, unsigned c) {
  if (c < 0x80) { d[0] = c; return 1; }
  if (c < 0x800) { d[0] = 0xC0 | c >> 6; d[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { d[0] = 0xE0 | c >> 12; d[1] = 0x80 | (c >> 6 & 63); d[2] = 0x80 | (c & 63); return 3; }
  d[0] = 0xF0 | c >> 18; d[1] = 0x80 | (c >> 12 & 63); d[2] = 0x80 | (c >> 6 & 63); d[3] = 0x80 | (c & 63); return 4;
}
static int utf8_ok(const unsigned char *p, size_t n) {
  for (size_t i = 0; i < n;) {
    unsigned c = p[i], v; int k;
    if (c < 0x80) { i++; continue; }
    if (c >= 0xC2 && c <= 0xDF) k = 1, v = c & 31; else if ((c & 0xF0) == 0xE0) k = 2, v = c & 15; else if (c >= 0xF0 && c <= 0xF4) k = 3, v = c & 7; else return 0;
    if (i + k >= n + 0 && i + k > n - 1) return 0;
    for (int j = 1; j <= k; j++) { if ((p[i + j] & 0xC0) != 0x80) return 0; v = v << 6 | (p[i + j] & 63); }
    if ((k == 2 && v < 0x800) || (k == 3 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v <= 0xDFFF)) return 0;
    i += k + 1;
  }
  return 1;
}
static int p_string(ps *s, char **out, size_t *n) {
  /* at the opening quote */
  const unsigned char *q = ++s->p;
  const unsigned char *end = q;
  while (end < s->e && *end != '"') { if (*end == '\\') end++; end++; }
  if (end >= s->e) return 0;
  char *d = ar_alloc(end - q + 1);
  size_t k = 0;
  if (!utf8_ok(q, end - q)) s->u |= REF_U_UTF8;
  while (s->p < end) {
    unsigned c = *s->p++;
    if (c < 0x20) return 0;
    if (c != '\\') { d[k++] = c; continue; }
    c = *s->p++;
    switch (c) {
      case '"': case '\\': case '/': d[k++] = c; break;
      case 'b': d[k++] = 8; break; case 'f': d[k++] = 12; break; case 'n': d[k++] = 10; break; case 'r': d[k++] = 13; break; case 't': d[k++] = 9; break;
      case 'u': {
        unsigned v, w;
        const unsigned char *save_e = s->e; s->e = end;
        int ok = hex4(s, &v);
        if (ok && v >= 0xD800 && v <= 0xDBFF) {
          const unsigned char *b = s->p;
          if (end - s->p >= 6 && s->p[0] == '\\' && s->p[1] == 'u' && (s->p += 2, hex4(s, &w)) && w >= 0xDC00 && w <= 0xDFFF) v = 0x10000 + ((v & 0x3FF) << 10 | (w & 0x3FF));
          else { s->e = save_e; (void)b; return 0; }      /* half a pair is no character */
        } else if (ok && v >= 0xDC00 && v <= 0xDFFF) { s->e = save_e; return 0; }
        s->e = save_e;
        if (!ok) return 0;
        if (v == 0) s->u |= REF_U_NUL;
        k += put8(d + k, v);
        break;
      }
      default: return 0;
    }
  }
  s->p = end + 1;
  d[k] = 0;
  *out = d; *n = k;
  return 1;
}
static int dg(ps *s) { return s->p < s->e && *s->p >= '0' && *s->p <= '9'; }
static jv *p_number(ps *s) {
  const unsigned char *b = s->p;
  int neg = 0, frac = 0;
  if (*s->p == '-') { neg = 1; s->p++; }
  if (!dg(s)) return NULL;
  const unsigned char *ib = s->p;
  while (dg(s)) s->p++;
  if (s->p - ib > 1 && *ib == '0') return NULL;
  const unsigned char *ie = s->p;
  if (s->p < s->e && *s->p == '.') { frac = 1; s->p++; if (!dg(s)) return NULL; while (dg(s)) s->p++; }
  if (s->p < s->e && (*s->p == 'e' || *s->p == 'E')) {
    frac = 1; s->p++;
    if (s->p < s->e && (*s->p == '+' || *s->p == '-')) s->p++;
    if (!dg(s)) return NULL;
    while (dg(s)) s->p++;
  }
  if (!frac) {
    unsigned __int128 v = 0; int big = 0;
    for (const unsigned char *q = ib; q < ie; q++) { v = v * 10 + (*q - '0'); if (v >> 66) { big = 1; break; } }
    if (!big) {
      if (neg ? v <= (unsigned __int128)1 << 63 : v <= INT64_MAX) return jv_i(neg ? (int64_t)(0 - (uint64_t)v) : (int64_t)v);
      if (!neg && v <= UINT64_MAX) return jv_u((uint64_t)v);
    }
  }
  char *t = malloc(s->p - b + 1);
  memcpy(t, b, s->p - b); t[s->p - b] = 0;
  double d = strtod(t, NULL);
  free(t);
  if (!isfinite(d)) s->u |= REF_U_RANGE;
  return jv_d(d);
}
static int lit(ps *s, const char *w) {
  size_t n = strlen(w);
  if ((size_t)(s->e - s->p) < n || memcmp(s->p, w, n)) return 0;
  s->p += n;
  return 1;
}
static jv *p_value(ps *s);
static jv *p_value_(ps *s) {
  ws(s);
  if (s->p >= s->e) return NULL;
  switch (*s->p) {
    case '"': { char *d; size_t n; if (!p_string(s, &d, &n)) return NULL; jv *v = jv_new(JS); v->s = d; v->n = n; return v; }
    case 't': return lit(s, "true") ? jv_b(1) : NULL;
    case 'f': return lit(s, "false") ? jv_b(0) : NULL;
    case 'n': return lit(s, "null") ? jv_new(JN) : NULL;
    case '-': case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': return p_number(s);
    case '[': {
      jv *a = jv_new(JA); s->p++; int comma = 0;
      for (;;) {
        ws(s);
        if (s->p >= s->e) return NULL;
        if (*s->p == ']') { if (comma) s->u |= REF_U_TRAIL; s->p++; return a; }
        jv *v = p_value(s);
        if (!v) return NULL;
        jv_push(a, v);
        ws(s);
        if (s->p >= s->e) return NULL;
        if ((comma = *s->p == ',')) { s->p++; continue; }
        if (*s->p != ']') return NULL;
      }
    }
    case '{': {
      jv *o = jv_new(JO); s->p++; int comma = 0;
      for (;;) {
        ws(s);
        if (s->p >= s->e) return NULL;
        if (*s->p == '}') { if (comma) s->u |= REF_U_TRAIL; s->p++; return o; }
        if (*s->p != '"') return NULL;
        char *k; size_t n;
        if (!p_string(s, &k, &n)) return NULL;
        ws(s);
        if (s->p >= s->e || *s->p++ != ':') return NULL;
        jv *v = p_value(s);
        if (!v) return NULL;
        jv_set(o, k, v);
        ws(s);
        if (s->p >= s->e) return NULL;
        if ((comma = *s->p == ',')) { s->p++; continue; }
        if (*s->p != '}') return NULL;
      }
    }
    default: return NULL;
  }
}
static jv *p_value(ps *s) {
  if (++s->depth > 501) {      /* containers only: checked below */
    s->u |= REF_U_DEPTH;
    if (s->depth > 6000) { s->fail = 1; s->u |= REF_U_GIVEUP; return NULL; }
  }
  jv *v = p_value_(s);
  s->depth--;
  return v;
}
int ref_parse(const char *p, size_t n, int eof, jv **out, unsigned *unspec) {
  ps s = { (const unsigned char *)p, (const unsigned char *)p + n, 0, 0, 0 };
  *out = NULL;
  /* two slashes outside strings, and a NUL after them: the only texts with comments that might be read */
  for (size_t i = 0, str = 0; i + 1 < n; i++) {
    if (str) { if (p[i] == '\\') i++; else str = p[i] != '"'; }
    else if (p[i] == '"') str = 1;
    else if (p[i] == '/' && p[i + 1] == '/' && memchr(p + i, 0, n - i)) { s.u |= REF_U_COMMENT; break; }
  }
  jv *v = p_value(&s);
  int ok = v != NULL;
  if (ok && eof) { ws(&s); ok = s.p == s.e; }
  *unspec = s.u;
  if (ok) *out = v;
  return ok;
}
size_t ref_lines(const char *p, size_t n) { size_t l = 0; for (size_t i = 0; i < n; i++) l += p[i] == '\n' || (p[i] == '\r' && (i + 1 == n || p[i + 1] != '\n')); return l; }

/* ---- comparison with the library's values */
struct walk { int n; struct cee_str **k; struct cee_json **v; int cap; };
static int wf(void *c, struct cee_str *k, struct cee_json *v) {
  struct walk *w = c;
  if (w->n < w->cap) { w->k[w->n] = k; w->v[w->n] = v; }
  w->n++;
  return 0;
}
static char *msg(const char *fmt, ...) {
  char b[900];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  return ar_str(b, strlen(b));
}
static const char *tname(int t) {
  static const char *n[] = { "undefined", "null", "boolean", "double", "i64", "u64", "string", "blob", "object", "array", "strn" };
  return t >= 0 && t <= 10 ? n[t] : "?";
}
char *real_diff(struct cee_json *r, const jv *m, int how) {
  static const int tt[] = { CEE_JSON_NULL, CEE_JSON_BOOLEAN, CEE_JSON_I64, CEE_JSON_U64, CEE_JSON_DOUBLE, CEE_JSON_STRING, CEE_JSON_ARRAY, CEE_JSON_OBJECT, CEE_JSON_STRN, CEE_JSON_BLOB, CEE_JSON_UNDEFINED };
  if (!r) return msg("no value where %s is expected", jv_show(m));
  int num = (how & JEQ_NUMERIC) && num_is(m) && (r->t == CEE_JSON_I64 || r->t == CEE_JSON_U64 || r->t == CEE_JSON_DOUBLE);
  if (!num && (int)r->t != tt[m->t] && !((how & JEQ_NUMERIC) && m->t == JX && r->t == CEE_JSON_STRING)) return msg("a %s where %s is expected", tname(r->t), jv_show(m));
  switch (m->t) {
    case JUND: return r == cee_json_undefined() ? NULL : msg("an undefined that is not cee_json_undefined()");
    case JN: return r == cee_json_null() ? NULL : msg("a null that is not cee_json_null()");
    case JB: { bool b; if (cee_json_to_boolx(r, &b)) return msg("unreadable boolean"); return b == m->b ? NULL : msg("%d where %s is expected", b, jv_show(m)); }
    case JI: case JU: case JD: {
      jv x = { 0 };
      if (r->t == CEE_JSON_I64) { x.t = JI; if (cee_json_to_i64x(r, &x.i)) return msg("unreadable i64"); }
      else if (r->t == CEE_JSON_U64) { x.t = JU; if (cee_json_to_u64x(r, &x.u)) return msg("unreadable u64"); }
      else { x.t = JD; if (cee_json_to_doublex(r, &x.d)) return msg("unreadable double"); }
      if (!jv_eq(&x, m, how)) return msg("number %s where %s is expected", jv_show(&x), jv_show(m));
      return NULL;
    }
    case JS: case JX: {
      const char *s; size_t n;
      if (r->t == CEE_JSON_STRN) { char *q; if (!cee_json_to_strn(r, &q, &n)) return msg("unreadable strn"); s = q; }
      else { s = (char *)cee_json_to_str(r); if (!s) return msg("unreadable string"); n = strlen(s); }
      if (n != m->n || memcmp(s, m->s, n)) { jv x = { 0 }; x.t = JS; x.s = (char *)s; x.n = n; return msg("string %s where %s is expected", jv_show(&x), jv_show(m)); }
      return NULL;
    }
    case JBLOB: {
      struct cee_block *b = cee_json_to_blob(r);
      if (!b || cee_block_size(b) != m->n || memcmp(b, m->s, m->n)) return msg("blob of %zu bytes where %s is expected", b ? cee_block_size(b) : 0, jv_show(m));
      return NULL;
    }
    case JA: {
      if (!cee_json_to_array(r)) return msg("unreadable array");
      size_t n = cee_json_array_length(r);
      if (n != m->c) return msg("an array of %zu elements where %s is expected", n, jv_show(m));
      if (!!cee_json_empty(r) != (n == 0)) return msg("cee_json_empty is wrong for an array of %zu", n);
      for (size_t i = 0; i < n; i++) { char *d = real_diff(cee_json_array_get(r, (int)i), m->e[i], how); if (d) return msg("[%zu]: %s", i, d); }
      return NULL;
    }
    default: {
      struct cee_map *o = cee_json_to_object(r);
      if (!o) return msg("unreadable object");
      size_t n = cee_map_size(o);
      if (n != m->c) return msg("an object of %zu members where %s is expected", n, jv_show(m));
      if (!!cee_json_empty(r) != (n == 0)) return msg("cee_json_empty is wrong for an object of %zu", n);
      struct walk w = { 0, ar_alloc(n * 8 + 8), ar_alloc(n * 8 + 8), (int)n };
      cee_json_object_iterate(r, &w, wf);
      if (w.n != (int)n) return msg("iteration visits %d of %zu members", w.n, n);
      for (size_t i = 0; i < n; i++) {
        struct cee_json *v = cee_json_object_get(r, m->k[i]);
        char *d = real_diff(v, m->e[i], how);
        if (d) return msg(".%s: %s", m->k[i], d);
        int seen = 0;
        for (size_t j = 0; j < n; j++) if (!strcmp((char *)w.k[j], m->k[i])) { seen++; if (w.v[j] != v) return msg(".%s: iteration shows another value", m->k[i]); }
        if (seen != 1) return msg(".%s: iteration shows the member %d times", m->k[i], seen);
        if (n > 400 && i > 3) break;      /* quadratic: enough for large objects, the rest by the order check */
      }
      if (n > 400) for (size_t i = 4; i < n; i++) { char *d = real_diff(cee_json_object_get(r, m->k[i]), m->e[i], how); if (d) return msg(".%s: %s", m->k[i], d); }
      if (!(how & JEQ_ANYORDER)) {
        struct cee_list *l = cee_map_insertion_ordered_keys(o);
        char *bad = NULL;
        if (cee_list_size(l) != n) bad = msg("the key listing has %zu of %zu members", cee_list_size(l), n);
        for (size_t i = 0; !bad && i < n; i++) if (strcmp(l->a[i], m->k[i])) bad = msg("member %zu is %s, expected %s", i, (char *)l->a[i], m->k[i]);
        cee_del(l);
        return bad;
      }
      return NULL;
    }
  }
}
void real_observe(struct cee_json *r) {
  if (!r) { OB(77); return; }
  OB(r->t);
  switch (r->t) {
    case CEE_JSON_BOOLEAN: OB(r == cee_json_true()); break;
    case CEE_JSON_I64: { int64_t v = 0; OB(cee_json_to_i64x(r, &v)); OB(v); break; }
    case CEE_JSON_U64: { uint64_t v = 0; OB(cee_json_to_u64x(r, &v)); OB(v); break; }
    case CEE_JSON_DOUBLE: { double v = 0; OB(cee_json_to_doublex(r, &v)); OBD(v); break; }
    case CEE_JSON_STRING: OBZ((char *)cee_json_to_str(r)); break;
    case CEE_JSON_STRN: { char *s; size_t n; cee_json_to_strn(r, &s, &n); OBS(s, n); break; }
    case CEE_JSON_BLOB: OBS(cee_json_to_blob(r), cee_block_size(cee_json_to_blob(r))); break;
    case CEE_JSON_ARRAY: { size_t n = cee_json_array_length(r); OB(n); for (size_t i = 0; i < n; i++) real_observe(cee_json_array_get(r, (int)i)); break; }
    case CEE_JSON_OBJECT: {
      struct cee_list *l = cee_map_insertion_ordered_keys(cee_json_to_object(r));
      size_t n = cee_list_size(l); OB(n);
      for (size_t i = 0; i < n; i++) { OBZ(l->a[i]); real_observe(cee_json_object_get(r, l->a[i])); }
      cee_del(l);
      break;
    }
    default: break;
  }
}
