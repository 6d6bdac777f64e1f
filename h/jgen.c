#include "ref.h"
int64_t gen_i64(void) {
  switch (rnd(8)) {
    case 0: return rndr(-10, 10);
    case 1: return rndr(-100000, 100000);
    case 2: return (int64_t)(1ull << rnd(64));
    case 3: return (int64_t)((1ull << rnd(64)) - 1);
    case 4: return rnd(2) ? INT64_MAX - (int64_t)rnd(3) : INT64_MIN + (int64_t)rnd(3);
    case 5: return rnd(2) ? (int64_t)INT_MAX + rndr(-2, 2) : (int64_t)INT_MIN + rndr(-2, 2);
    default: return (int64_t)(rnd64() >> rnd(64));
  }
}
double gen_double(void) {
  double d; uint64_t u;
  switch (rnd(10)) {
    case 0: return (double)rndr(-1000, 1000);
    case 1: return (double)rndr(-100000, 100000) / 64;
    case 2: return (double)rndr(-100000, 100000) / 10;
    case 3: { static const double s[] = { 0.0, -0.0, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 5e-324, DBL_MIN, DBL_MAX, -DBL_MAX, DBL_EPSILON, 0.1, 0.2, 0.3, 1.0 / 3, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, 18446744073709551616.0, 1e-7, 123456789.125, 100000.0, 1000000.0, 0.0001, 0.00001, 4503599627370497.5, 2.2250738585072011e-308 };
              return s[rnd(sizeof s / sizeof *s)]; }
    case 4: return ldexp((double)(rnd64() >> 11), (int)rndr(-60, 12));
    case 5: return (double)gen_i64();
    default:
      do { u = rnd64(); memcpy(&d, &u, 8); } while (!isfinite(d));
      return d;
  }
}
static size_t put8(char *d, unsigned c) {
  if (c < 0x80) { d[0] = c; return 1; }
  if (c < 0x800) { d[0] = 0xC0 | c >> 6; d[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { d[0] = 0xE0 | c >> 12; d[1] = 0x80 | (c >> 6 & 63); d[2] = 0x80 | (c & 63); return 3; }
  d[0] = 0xF0 | c >> 18; d[1] = 0x80 | (c >> 12 & 63); d[2] = 0x80 | (c >> 6 & 63); d[3] = 0x80 | (c & 63); return 4;
}
char *gen_text(size_t *n, int maxchars) {
  size_t m = rnd(maxchars + 1), k = 0;
  char *b = ar_alloc(m * 4 + 1);
  int mode = (int)rnd(5);
  for (size_t i = 0; i < m; i++) {
    unsigned c;
    switch (mode == 4 ? (int)rnd(4) : mode) {
      case 0: c = 'a' + rnd(26); break;
      case 1: c = "\"\\/\b\f\n\r\t{}[],:u0"[rnd(16)]; break;
      case 2: c = 1 + rnd(127); break;
      default: {
        static const unsigned edge[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xFFFE, 0xD7FF, 0xE000, 0x10000, 0x10FFFF, 0xFEFF, 0x2028, 0x1F600, 0xE9, 0x4E2D };
        c = rnd(3) ? edge[rnd(15)] : 0x80 + rnd(0x10FFFF - 0x80);
        if (c >= 0xD800 && c <= 0xDFFF) c = 0xE000;
      }
    }
    k += put8(b + k, c);
  }
  b[k] = 0;
  *n = k;
  return b;
}
char *gen_key(const jopt *o) {
  if (rnd(5000) == 0) { size_t l = 60000 + rnd(12000); char *k = ar_alloc(l + 1); for (size_t i = 0; i < l; i++) k[i] = 'a' + (i * 7 + l) % 26; k[l] = 0; return k; }   /* huge keys */
  if (rnd(300) == 0) { size_t l = 30 + rnd(chance(30) ? 900 : 120); char *k = ar_alloc(l + 1); for (size_t i = 0; i < l; i++) k[i] = 'a' + (i * 7 + l) % 26; k[l] = 0; return k; }   /* long keys */
  if (chance(o->keyrange ? 85 : 30)) { char b[24]; snprintf(b, sizeof b, "k%d", (int)rnd(o->keyrange ? o->keyrange : 6)); return ar_str(b, strlen(b)); }
  size_t n; return gen_text(&n, 6);
}
jv *gen_jv(const jopt *o, int depth) {
  int cont = depth < o->maxdepth && chance(depth == 0 ? 85 : 45);
  if (cont) {
    int w = (int)rnd(o->width + 1);
    if (depth < 2 && rnd(150) == 0) w = 8 + (int)rnd(chance(20) ? 300 : 60);      /* wide */
    if (chance(50)) { jv *a = jv_new(JA); for (int i = 0; i < w; i++) jv_push(a, gen_jv(o, depth + 1)); return a; }
    jv *m = jv_new(JO);
    for (int i = 0; i < w; i++) { char *k = gen_key(o); if (jv_find(m, k) < 0) jv_set(m, k, gen_jv(o, depth + 1)); }
    return m;
  }
  switch (rnd(9)) {
    case 0: return jv_new(o->und && chance(40) ? JUND : JN);
    case 1: return jv_b((int)rnd(2));
    case 2: case 3: return jv_i(gen_i64());
    case 4: return jv_u(chance(70) ? UINT64_MAX - (rnd64() >> (1 + rnd(63))) : (uint64_t)INT64_MAX + 1 + rnd(3));
    case 5: return jv_d(o->nonfinite && chance(20) ? (chance(33) ? NAN : chance(50) ? INFINITY : -INFINITY) : gen_double());
    default: {
      size_t n; char *s = gen_text(&n, rnd(500) == 0 ? 9000 : chance(5) ? 200 : 12);
      jv *v = jv_s(s, n);
      if (o->strn && chance(20)) { v->t = JX; if (o->nul && n && chance(30)) { size_t at = rnd(n); if (!(v->s[at] & 0x80)) v->s[at] = 0; } }
      else if (o->blob && chance(15)) { v->t = JBLOB; }
      return v;
    }
  }
}
/* ---- emission */
typedef struct { char *b; size_t n, cap; int st; } eb;
static void ec(eb *e, char c) { if (e->n == e->cap) { e->cap = e->cap * 2 + 64; e->b = realloc(e->b, e->cap); } e->b[e->n++] = c; }
static void es(eb *e, const char *s) { while (*s) ec(e, *s++); }
static void ew(eb *e) { if (e->st & ST_WS) while (chance(30)) ec(e, " \t\n\r"[rnd(4)]); }
static void estr(eb *e, const char *s, size_t n) {
  ec(e, '"');
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    int esc = (e->st & ST_ESC) && chance(30);
    char t[16];
    if (c == '"' || c == '\\' || c < 0x20 || esc) {
      const char *sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : NULL;
      if (sh && !((e->st & ST_ESC) && chance(30))) { es(e, sh); continue; }
      unsigned v = c; int k = 0;
      if (c >= 0xF0) k = 3, v = c & 7; else if (c >= 0xE0) k = 2, v = c & 15; else if (c >= 0xC0) k = 1, v = c & 31;
      if (i + k >= n) { ec(e, c); continue; }
      for (int j = 1; j <= k; j++) v = v << 6 | (s[i + j] & 63);
      i += k;
      if (v >= 0x10000) { v -= 0x10000; snprintf(t, sizeof t, chance(50) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xD800 | v >> 10, 0xDC00 | (v & 0x3FF)); }
      else snprintf(t, sizeof t, chance(50) ? "\\u%04x" : "\\u%04X", v);
      es(e, t);
    } else {
      ec(e, c);
      if (c >= 0xC0) while (i + 1 < n && ((unsigned char)s[i + 1] & 0xC0) == 0x80) ec(e, s[++i]);   /* whole characters */
    }
  }
  ec(e, '"');
}
static void ev(eb *e, const jv *v) {
  char t[512];
  switch (v->t) {
    case JN: es(e, "null"); break;
    case JB: es(e, v->b ? "true" : "false"); break;
    case JI: snprintf(t, sizeof t, "%lld", (long long)v->i); es(e, t); break;
    case JU: snprintf(t, sizeof t, "%llu", (unsigned long long)v->u); es(e, t); break;
    case JD: {
      int f = (int)rnd(4);
      if (!(e->st & ST_NUM)) f = 0;
      if (f == 0) snprintf(t, sizeof t, "%.17g", v->d);
      else if (f == 1) snprintf(t, sizeof t, chance(50) ? "%.17e" : "%.20E", v->d);
      else if (f == 2 && fabs(v->d) < 1e60) snprintf(t, sizeof t, "%.340f", v->d);   /* enough digits for the exact value of anything >= 1e-20 */
      else snprintf(t, sizeof t, "%.25e", v->d);
      { char *end; if (strtod(t, &end) != v->d) snprintf(t, sizeof t, "%.17g", v->d); }
      if (!strpbrk(t, ".eE")) strcat(t, chance(50) ? ".0" : "e0");
      if (e->st & ST_NUM) { char *x = strpbrk(t, "eE"); if (x && chance(50)) *x = *x == 'e' ? 'E' : 'e'; if (x && x[1] == '+' && chance(50)) memmove(x + 1, x + 2, strlen(x + 1)); }
      es(e, t);
      break;
    }
    case JS: case JX: estr(e, v->s, v->n); break;
    case JA: case JO:
      ec(e, v->t == JA ? '[' : '{');
      for (size_t i = 0; i < v->c; i++) {
        ew(e);
        if (v->t == JO) {
          if ((e->st & ST_DUP) && i && chance(20)) {   /* an earlier value for a key: the last one wins, at the first one's place */
            /* only a key whose first occurrence is this one may be duplicated here */
          }
          estr(e, v->k[i], strlen(v->k[i])); ew(e); ec(e, ':'); ew(e);
          if ((e->st & ST_DUP) && chance(15)) {
            eb in = { 0 }; in.st = 0;
            jv *junk = chance(50) ? jv_i(gen_i64()) : chance(50) ? jv_new(JA) : jv_s("dup", 3);
            ev(e, junk); ew(e); ec(e, ','); ew(e);
            estr(e, v->k[i], strlen(v->k[i])); ew(e); ec(e, ':'); ew(e);
            (void)in;
          }
        }
        ev(e, v->e[i]);
        ew(e);
        if (i + 1 < v->c || ((e->st & ST_TRAIL) && chance(25))) { ec(e, ','); }
        else if ((e->st & ST_DUP) && v->t == JO && i + 1 == v->c && i > 0 && chance(15)) {
          /* repeat an earlier member with its own value */
          size_t j = rnd(i);
          ec(e, ','); ew(e); estr(e, v->k[j], strlen(v->k[j])); ew(e); ec(e, ':'); ew(e); ev(e, v->e[j]); ew(e);
        }
      }
      ew(e);
      ec(e, v->t == JA ? ']' : '}');
      break;
    default: es(e, "null");
  }
}
char *emit_text(const jv *v, int style, size_t *n) {
  eb e = { NULL, 0, 0, style };
  ew(&e); ev(&e, v); ew(&e);
  char *r = ar_str(e.b, e.n);
  *n = e.n;
  free(e.b);
  return r;
}
struct cee_json *real_build(struct cee_state *st, const jv *v) {
  switch (v->t) {
    case JN: return cee_json_null();
    case JUND: return L(cee_json_undefined());
    case JB: return cee_json_bool(v->b);
    case JI: return L(cee_json_i64_mk(st, v->i));
    case JU: return L(cee_json_u64_mk(st, v->u));
    case JD: return L(cee_json_double_mk(st, v->d));
    case JS: return chance(50) ? L(cee_json_str_mkf(st, "%s", v->s)) : L(cee_json_str_mk(st, cee_str_mk(st, "%s", v->s)));
    case JX: return L(cee_json_strn_mk(st, v->s, v->n));
    case JBLOB: return L(cee_json_blob_mk(st, v->s, v->n));
    case JA: {
      struct cee_json *a = L(cee_json_array_mk(st, chance(50) ? 0 : (int)rnd(30)));
      for (size_t i = 0; i < v->c; i++) {
        jv *x = v->e[i];
        if (x->t == JB && chance(50)) LV(cee_json_array_append_bool(a, x->b));
        else if (x->t == JS && chance(30)) LV(cee_json_array_append_str(a, x->s));
        else if (x->t == JS && chance(30)) LV(cee_json_array_append_strf(a, "%s", x->s));
        else { struct cee_json *y = real_build(st, x); LV(cee_json_array_append(a, y)); }
      }
      return a;
    }
    default: {
      struct cee_json *o = L(cee_json_object_mk(st));
      for (size_t i = 0; i < v->c; i++) {
        jv *x = v->e[i]; char *k = v->k[i];
        int d = chance(50);
        if (x->t == JN && d) LV(cee_json_object_set_null(o, k));
        else if (x->t == JB && d) LV(cee_json_object_set_bool(o, k, x->b));
        else if (x->t == JI && d) LV(cee_json_object_set_i64(o, k, x->i));
        else if (x->t == JU && d) LV(cee_json_object_set_u64(o, k, x->u));
        else if (x->t == JD && d) LV(cee_json_object_set_double(o, k, x->d));
        else if (x->t == JS && d) { if (chance(50)) LV(cee_json_object_set_str(o, k, x->s)); else LV(cee_json_object_set_strf(o, k, "%s", x->s)); }
        else { struct cee_json *y = real_build(st, x); LV(cee_json_object_set(o, k, y)); }
      }
      return o;
    }
  }
}
/* beyond every 16-bit count: elements, members, bytes of a text or a key */
jv *gen_vast(int kind, int strn) {
  size_t n = 65530 + rnd(chance(70) ? 12 : 6000);
  jv *m = jv_new(kind == 1 ? JO : JA);
  char b[24];
  switch (kind) {
    case 0: for (size_t i = 0; i < n; i++) jv_push(m, i % 500 ? jv_i((int64_t)i) : jv_new(chance(50) ? JA : JO)); break;
    case 1: for (size_t i = 0; i < n; i++) { sprintf(b, "k%zx", i * 7919 % 1000003); jv_set(m, b, jv_i((int64_t)i)); } break;
    default: {      /* texts, some of them growing when escaped */
      int w = 1 + (int)rnd(3), first = 1;
      while (w--) {
        size_t k = first ? 65537 + rnd(7000) : chance(50) ? n : n / 2 + rnd(n);
        char *s = ar_alloc(k + 1); int esc = chance(50);
        for (size_t i = 0; i < k; i++) s[i] = esc && i % 9 == 0 ? "\n\"\\\x01"[rnd(4)] : (char)('a' + i * 31 % 23);
        s[k] = 0;
        jv *v = jv_s(s, k);
        if (strn && !first && chance(40)) v->t = JX;
        first = 0;
        if (chance(30)) { jv *o = jv_new(JO); jv_set(o, s, v); v = o; }
        jv_push(m, v);
      }
    }
  }
  COUNT("values beyond 16-bit sizes");
  return m;
}
